"""Value numbering of AMR fields and grids (viscid/amr_field.py, amr_grid.py, cython/cyamr.pyx):
patches of symbols are made into an AMR grid by the interpreted code; arithmetic, reductions, numpy
functions, attributes and selections must be those of the patches, and the skeleton must have the
bounds and neighbors of the patches it is used for."""
from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as _np
from ..alg import P, var
from ..interp import A, Raised, symarr, arr, asint
from ..vn import VN, Order, differ
from .c14 import HOOKS

M = "viscid.amr_grid"
Q = "viscid.amr_field.AMRField."
MAKE = '''
def probe(patches, other, template):
    def build(ps, name):
        ds = viscid.dataset.Dataset(name="d")
        for nodes, flds in ps:
            g = viscid.grid.Grid(name="g")
            g.time = 7
            crds = viscid.wrap_crds("nonuniform_cartesian", [(a, c) for a, c in zip("xyz", nodes)])
            g.set_crds(crds)
            for fname, center, nr, layout, d in flds:
                g.add_field(viscid.wrap_field(d, crds, name=fname, center=center, fldtype="vector" if nr else "scalar", layout=layout, time=7))
            ds.add(g)
        return ds
    def show(f):
        if isinstance(f, viscid.field.Field):
            return ["field", f.as_flat().data if f.nr_comps else f.data, f.center, f.get_crds_nc(), f.crds.axes, f.time, f.nr_comps]
        if isinstance(f, AMRField):
            return ["amr", [show(p) for p in f.patches]]
        return ["value", f]
    def fld(ds, name):
        grid, is_amr = dataset_to_amr_grid(ds, template)
        if not is_amr:
            raise RuntimeError("the patches aren't an AMR grid")
        return grid[name]
    f = fld(build(patches, "d"), "f")
    %s
'''


def nodes(lo, hi, n):
    return [Fraction(lo) + (Fraction(hi) - Fraction(lo)) * i / n for i in range(n + 1)]


def box(x, y, z, n=(2, 2, 1)):
    return [nodes(*x, n[0]), nodes(*y, n[1]), nodes(*z, n[2])]


# layouts of patches: [[nodes in x, y, z]]
ROW = [box((0, 4), (0, 2), (0, 1)), box((4, 8), (0, 2), (0, 1)), box((8, 12), (0, 2), (0, 1))]
QUAD = [box(x, y, (4, 6), (2, 2, 2)) for y in ((8, 10), (10, 12)) for x in ((0, 4), (4, 8))]
REFINED = [box((0, 4), (0, 4), (0, 4))] + [box((4 + 2 * i, 6 + 2 * i), (2 * j, 2 * j + 2), (2 * k, 2 * k + 2), (2, 2, 2)) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
APART = [box((0, 1), (0, 1), (0, 1)), box((3, 4), (0, 1), (0, 1)), box((1, 2), (1, 2), (1, 2)), box((1, 3), (0, 1), (0, 1))]
UNEVEN = [box((0, 4), (0, 2), (0, 1), (1, 2, 1)), box((4, 8), (0, 2), (0, 1), (3, 1, 2))]
LAYOUTS = {"row": ROW, "quad": QUAD, "refined": REFINED, "apart": APART, "uneven": UNEVEN, "two": ROW[:2]}


def run(ctx):
    ctx.rule("patchwise", "arithmetic, comparisons, numpy functions and methods of an AMR field are those of each patch with the patch of the other operand")
    ctx.rule("reduced", "a reduction of an AMR field is over the values of all patches")
    ctx.rule("selected", "a selection by coordinates is the selection from each patch that overlaps it")
    ctx.rule("skeleton", "the skeleton of an AMR grid has the bounds of its patches and as neighbors those that touch")
    vn = VN(ctx, 3000000)

    def patches(lay, fname="f", tag="v", center="cell", nr=0, layout=None):
        out = []
        for i, ns in enumerate(LAYOUTS[lay] if isinstance(lay, str) else lay):
            sh = tuple(len(x) - (center != "node") for x in ns)
            full = sh if not nr else ((nr,) + sh if layout == "flat" else sh + (nr,))
            out.append([[arr([P.of(c) for c in x]) for x in ns], [[fname, center, nr, layout, symarr("%s%d" % (tag, i), full)]]])
        return out

    def go(body, ps, other=None, template=None, order=None):
        it = vn.interp(dict(HOOKS), None)
        it.decider = Order({**(order or {}), var("inf").key: 1e12})
        res = it.probe(M, MAKE % body, [ps, other, template])
        vn.reached |= it.calls
        return res

    def same(got, want, where=""):
        """compares what `show` gives"""
        if got[0] != want[0]:
            return "%sa %s instead of a %s" % (where, got[0], want[0])
        if got[0] == "amr":
            if len(got[1]) != len(want[1]):
                return "%s%d patches instead of %d" % (where, len(got[1]), len(want[1]))
            for i, (g, w) in enumerate(zip(got[1], want[1])):
                r = same(g, w, "%spatch %d: " % (where, i))
                if r:
                    return r
            return None
        if got[0] == "value":
            return differ(got[1], want[1], where + "value ")
        for i, nm in ((2, "centering"), (4, "axes"), (6, "components")):
            if got[i] != want[i]:
                return "%s%s %s instead of %s" % (where, nm, got[i], want[i])
        r = differ(got[1], want[1], where + "values ") or differ(got[5], want[5], where + "time ")
        for i in range(len(want[3])):
            if want[3][i] is None:
                continue
            r = r or differ(got[3][i], want[3][i], "%scoordinates %d " % (where, i))
        return r

    # --- the same operation on the AMR field and on each patch by itself ---
    def patchwise(expr, lay, kw, other, fresh=False):
        """expr in f (and o)"""
        def thunk():
            ps = patches(lay, **kw)
            oth = None
            if other == "amr":
                oth = patches(lay, tag="w", **kw)
            elif other == "one":
                oth = patches(lay, tag="w", **kw)[:1]
            single = "f2.patches[i]" if other == "amr" else "f2" if other == "one" else "None"
            make = {"amr": 'f2 = fld(build(other, "e"), "f")', "one": 'f2 = build(other, "e").children[0]["f"]', None: "f2 = None"}[other]
            body = '''%s
    if %r == "one":
        o = AMRField([f2], None)
    else:
        o = f2
    ps = f.patches
    res = %s
    got = show(res)
    want = []
    for i in range(len(ps)):
        f = ps[i]
        o = %s
        want.append(show(%s))
    return [got, want]''' % (make, other, expr, single, expr)
            got, want = go(body, ps, oth)
            return same(got, ["amr", want])
        return thunk
    BIN = ["+", "-", "*", "/", "//", "%", "**", "<", "<=", "==", "!=", ">", ">="]
    KW = {"cell": {"center": "cell"}, "node": {"center": "node"}, "vector": {"center": "cell", "nr": 3, "layout": "interlaced"},
          "flat vector": {"center": "node", "nr": 3, "layout": "flat"}}
    for lay, (kn, kw) in itertools.product(("row", "uneven"), KW.items()):
        for op in BIN:
            q = Q + "wrap_field_method"
            vn.defer("patchwise", "f %s number, %s, %s" % (op, lay, kn), q, patchwise("f %s 3" % op, lay, kw, None))
            vn.defer("patchwise", "f %s amr, %s, %s" % (op, lay, kn), q, patchwise("f %s o" % op, lay, kw, "amr"))
            if op not in ("**",):
                vn.defer("patchwise", "number %s f, %s, %s" % (op, lay, kn), q, patchwise("3 %s f" % op, lay, kw, None))
        for e in ("-f", "+f", "abs(f)", "np.sqrt(f)", "np.exp(f)", "f.as_cell_centered()", "f.as_node_centered()", "f.astype('f4')"):
            if kn != "cell" or lay != "uneven" or "np." not in e:
                if not ("np." in e and lay == "uneven"):
                    vn.defer("patchwise", "%s, %s, %s" % (e, lay, kn), Q + ("__array_wrap__" if "np." in e else "__getattr__" if "." in e else "wrap_field_method"), patchwise(e, lay, kw, None))
        if lay == "row":
            vn.defer("patchwise", "np.add(f, 2), %s" % kn, Q + "__array_wrap__", patchwise("np.add(f, 2)", lay, kw, None))
            vn.defer("patchwise", "np.multiply(f, amr), %s" % kn, Q + "__array_wrap__", patchwise("np.multiply(f, o)", lay, kw, "amr"))
    for op in BIN:
        vn.defer("patchwise", "f %s amr of one patch" % op, Q + "wrap_field_method", patchwise("f %s o" % op, "row", {"center": "cell"}, "one"))
    # --- reductions ---
    def reduced(name, lay, kw):
        def thunk():
            ps = patches(lay, **kw)
            vals = [v for p in ps for v in p[1][0][4].a.reshape(-1)]
            order = {v.key: float((7 * i) % len(vals)) - 1.5 for i, v in enumerate(vals)}
            got = go("return show(f.%s())" % name, ps, order=order)
            whole = arr(vals)
            it = vn.interp(dict(HOOKS), None)
            it.decider = Order(order)
            want = it.probe(M, "def probe(a):\n    return a.%s()\n" % name, [whole])
            return same(got, ["value", want])
        return thunk
    for lay, (kn, kw) in itertools.product(("row", "uneven", "two"), KW.items()):
        for name in ("min", "max", "sum", "prod", "mean", "ptp", "std", "any", "all"):
            vn.defer("reduced", "%s, %s, %s" % (name, lay, kn), Q + "wrap_field_method", reduced(name, lay, kw))

    # --- selections ---
    def selected(lay, sel, method, bounds, kw):
        """bounds: per axis None or (lo, hi), what the text selects"""
        def thunk():
            ps = patches(lay, **kw)
            lays = LAYOUTS[lay]
            hit, edge = [], []
            for i, ns in enumerate(lays):
                ok, e = True, False
                for x, b in zip(ns, bounds):
                    if b is None:
                        continue
                    lo, hi = b
                    if (lo is not None and x[-1] <= lo and x[-1] != lo) or (hi is not None and x[0] > hi):
                        ok = False
                    if lo is not None and x[-1] == lo:
                        ok = False
                if ok:
                    hit.append(i)
            body = '''ps = f.patches
    got = show(f%s)
    return [got, [show(ps[i]%s) for i in other]]'''
            call = {"item": "[%r]" % sel}.get(method, ".%s(%r)" % (method, sel))
            got, want = go(body % (call, call), ps, hit)
            want = [w for w in want if w[0] != "field" or w[1].a.size]
            if len(hit) > 1:
                # an axis that is only gone from some patches is put back with length one
                left = [ax for ax in "xyz" if any(ax in w[4] for w in want)]
                for w in want:
                    for d, ax in enumerate(left):
                        if ax not in w[4]:
                            d = d + (1 if w[6] else 0)
                            w[1] = A(_np.expand_dims(w[1].a, d))
                            w[4] = w[4][:left.index(ax)] + [ax] + w[4][left.index(ax):]
                            w[3] = list(w[3])[:left.index(ax)] + [None] + list(w[3])[left.index(ax):]
            return same(got, want[0] if len(hit) == 1 else ["amr", want])
        return thunk
    F = Fraction
    SEL = {
        "row": [("x=1j:3j", ((1, 3), None, None)), ("x=3j:5j", ((3, 5), None, None)), ("x=1j:11j", ((1, 11), None, None)),
                ("x=4j:7j", ((4, 7), None, None)), ("x=5j:", ((5, None), None, None)), ("x=:7j", ((None, 7), None, None)),
                ("x=5j", ((5, 5), None, None)), ("x=4j", ((4, 4), None, None)), ("y=1j", (None, (1, 1), None)), ("y=0.5j:1.5j", (None, (F(1, 2), F(3, 2)), None)),
                ("x=2j:9j,y=0.5j:2j", ((2, 9), (F(1, 2), 2), None)), ("z=0.5j", (None, None, (F(1, 2), F(1, 2)))), ("x=8j", ((8, 8), None, None))],
        "quad": [("y=10j", (None, (10, 10), None)), ("y=9j", (None, (9, 9), None)), ("x=2j,y=11j", ((2, 2), (11, 11), None)), ("x=1j:5j", ((1, 5), None, None)),
                 ("x=1j:5j,y=9j:11j", ((1, 5), (9, 11), None)), ("z=5j", (None, None, (5, 5))), ("x=5j,z=5j", ((5, 5), None, (5, 5))), ("y=9j:", (None, (9, None), None)),
                 ("x=:3j,y=11j:", ((None, 3), (11, None), None))],
        "refined": [("x=5j", ((5, 5), None, None)), ("y=1j", (None, (1, 1), None)), ("z=3j,y=1j", (None, (1, 1), (3, 3))), ("x=5j,y=1j,z=3j", ((5, 5), (1, 1), (3, 3))),
                    ("x=1j:7j,y=1j:3j", ((1, 7), (1, 3), None)), ("x=3j:5j,z=1j", ((3, 5), None, (1, 1)))],
        "uneven": [("x=1j:7j", ((1, 7), None, None)), ("x=5j", ((5, 5), None, None))],
        "apart": [("x=0.5j:1.5j", ((F(1, 2), F(3, 2)), None, None)), ("y=1.5j", (None, (F(3, 2), F(3, 2)), None)), ("x=2.5j", ((F(5, 2), F(5, 2)), None, None))]}
    METH = {"item": "__getitem__", "slice": "slice", "slice_reduce": "slice_reduce", "slice_and_keep": "slice_and_keep"}
    for lay, sels in SEL.items():
        for (sel, bounds), (kn, kw), meth in itertools.product(sels, KW.items(), METH):
            if lay == "refined" and kw.get("nr"):
                continue
            vn.defer("selected", "%s of %s, %s, %s" % (sel, lay, kn, meth), Q + METH[meth], selected(lay, sel, meth, bounds, kw))

    # --- skeleton ---
    def touching(lays):
        out = []
        for i, a in enumerate(lays):
            s = set()
            for j, b in enumerate(lays):
                if i != j and all(x[0] <= y[-1] and y[0] <= x[-1] for x, y in zip(a, b)) and any(x[0] == y[-1] or y[0] == x[-1] for x, y in zip(a, b)):
                    s.add(j)
            out.append(s)
        return out

    def bounds_of(sk, lays):
        for nm, k in (("xl", 0), ("xh", -1)):
            r = differ(sk[nm], arr([[P.of(x[k]) for x in ns] for ns in lays]), nm + " ")
            if r:
                return r
        g = [[min(ns[d][0] for ns in lays) for d in range(3)], [max(ns[d][-1] for ns in lays) for d in range(3)]]
        r = differ(sk["glo"], arr([P.of(x) for x in g[0]]), "lower bound ") or differ(sk["ghi"], arr([P.of(x) for x in g[1]]), "upper bound ")
        if r:
            return r
        nr, nb = sk["nr"], sk["nb"]
        for i, w in enumerate(touching(lays)):
            n = asint(nr.a[i])
            got = [asint(P.of(v)) for v in nb.a[i][:n]]
            if len(got) != len(set(got)) or set(got) != w:
                return "neighbors of patch %d are %s instead of %s" % (i, sorted(got), sorted(w))
            if any(asint(P.of(v)) != -1 for v in nb.a[i][n:]):
                return "the list of neighbors of patch %d doesn't end with -1" % i
        return None
    SK = '{"xl": s.xl, "xh": s.xh, "glo": s.global_xl, "ghi": s.global_xh, "nr": s.nr_neighbors, "nb": s.neighbors}'

    def skeleton(lays):
        def thunk():
            got = go("s = f.skeleton\n    return " + SK, patches(lays))
            return bounds_of(got, lays)
        return thunk

    def reuse(first, then):
        def thunk():
            body = '''g, is_amr = dataset_to_amr_grid(build(other, "e"), f.skeleton)
    s = g.skeleton
    return ''' + SK
            got = go(body, patches(first), patches(then))
            return bounds_of(got, then)
        return thunk
    perms = {"%s %s" % (n, "".join(map(str, p))): [l[i] for i in p] for n, l in LAYOUTS.items() if len(l) <= 4 for p in itertools.permutations(range(len(l)))}
    perms["refined"] = REFINED
    perms["refined, reversed"] = REFINED[::-1]
    for n, lays in perms.items():
        vn.defer("skeleton", n, "viscid.amr_grid.AMRSkeleton", skeleton(lays))
    wide = [ROW[0], box((4, 10), (0, 2), (0, 1))]
    cases = [("the same", ROW, ROW), ("one more", ROW[:2], ROW), ("one less", ROW, ROW[:2]), ("another order", QUAD, QUAD[::-1]), ("longer", ROW[:2], wide),
             ("finer", ROW[:2], [box((0, 4), (0, 2), (0, 1), (4, 2, 1)), ROW[1]]), ("moved", QUAD, [box(x, y, (4, 6), (2, 2, 2)) for y in ((7, 9), (9, 11)) for x in ((0, 4), (4, 8))]),
             ("taller", ROW[:2], [ROW[0], box((4, 8), (0, 3), (0, 1))])]
    for (n, l), i, d, side in itertools.product((("row", ROW), ("quad", QUAD)), (0, 1, 2), (0, 1, 2), (0, 1)):
        # one patch that starts earlier or ends later
        lo, hi, m = l[i][d][0], l[i][d][-1], len(l[i][d]) - 1
        b = [list(ns) for ns in l]
        b[i][d] = nodes(lo - 1, hi, m) if side == 0 else nodes(lo, hi + 1, m)
        cases.append(("patch %d of %s is larger at side %d in direction %d" % (i, n, side, d), l, b))
    for n, a, b in cases:
        vn.defer("skeleton", "of a grid, given the skeleton of another: %s" % n, "viscid.amr_grid.AMRGrid", reuse(a, b))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")
