"""Value numbering of the conversions between centerings (viscid/calculator/ecfc.py, field.py,
coordinate.py) and of boundary padding: symbolic fields and coordinates in, every element of
the result compared with its defining expression."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, var
from ..interp import A, Obj, symarr, arr, Unsupp, Raised
from ..vn import VN, differ
from .c14 import HOOKS, crds

M = "viscid.calculator.ecfc"
NS = (4, 5, 6)                       # nodes

SRC = '''
def probe(cc, d, info):
    crds = viscid.wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    f = viscid.wrap_field(d[0], crds, name="A", center="%(center)s", fldtype=d[1], layout=d[2], time=2.0)
    for k, v in info:
        f.set_info(k, v)
    before = f.data
    c0 = f.center
    r = %(expr)s
    if not isinstance(r, viscid.field.Field):
        return [[r], None, None, None, before, f.data, c0 == f.center]
    comps = r.component_views() if r.nr_comps else [r]
    return [[c.data for c in comps], r.center, r.get_crds_nc(), r.get_crds_cc(), before, f.data, c0 == f.center]
'''


def P_(x):
    return P.of(x)


def avg(*xs):
    return sum(xs, P.of(0)) * P.of(1) / len(xs)


class Grid:
    """a grid of n nodes per axis and a field of symbols on its cells or nodes"""

    def __init__(self, n, center, nr=3, layout="flat"):
        self.n, self.center, self.nr = n, center, nr
        self.crd = crds(n)
        self.s = tuple(n) if center == "Node" else tuple(max(m - 1, 1) for m in n)
        if nr and layout == "flat":
            self.a = symarr("a", (nr,) + self.s)
        elif nr:
            self.a = symarr("a", self.s + (nr,))
        else:
            self.a = symarr("a", self.s)
        self.layout = layout
        self.arg = (self.a, "vector" if nr else "scalar", layout)

    def __call__(self, c, *i):
        if not self.nr:
            return P_(self.a.a[i])
        return P_(self.a.a[(c,) + i] if self.layout == "flat" else self.a.a[i + (c,)])

    def nodes(self, ax):
        return [P_(v) for v in self.crd[ax].a]


def mids(x):
    return [(u + v) / 2 for u, v in zip(x, x[1:])]


def pad(x, nl, nh, order):
    """one dimensional list extended nl, nh elements"""
    x = list(x)
    for _ in range(nl):
        x.insert(0, x[0] if order == 0 else 2 * x[0] - x[1])
    for _ in range(nh):
        x.append(x[-1] if order == 0 else 2 * x[-1] - x[-2])
    return x


def check(out, ncomp, want, dims, nodes, center, ccs=None):
    """want(c, i, j, k) -> P or None (unspecified)"""
    comps, cen, nc, cc, before, after, same_center = out
    if cen is None:
        return "the result is not a field"
    if str(cen).lower() != center:
        return "the result is %s centered instead of %s" % (cen, center)
    if len(comps) != max(ncomp, 1):
        return "%d components instead of %d" % (len(comps), max(ncomp, 1))
    for c, d in enumerate(comps):
        if not isinstance(d, A):
            raise Unsupp("component is not an array")
        if d.dims != tuple(dims):
            return "values have shape %s instead of %s" % (d.dims, tuple(dims))
        for i in itertools.product(*[range(m) for m in dims]):
            w = want(c, *i)
            if w is None:
                continue
            m = differ(d.a[i], w, "component %d at %s: " % (c, i))
            if m:
                return m
    for ax, (g, w) in enumerate(zip(nc, nodes)):
        m = differ(g, arr(w), "nodes along %s: " % "xyz"[ax])
        if m:
            return m
    for ax, (g, w) in enumerate(zip(cc, ccs or [])):
        m = w and differ(g, arr(w), "cell centers along %s: " % "xyz"[ax])
        if m:
            return m
    m = differ(after, before, "the data of the operand changed: ")
    return m or (None if same_center else "the centering of the operand changed")


def run(ctx):
    ctx.rule("average", "a cell value is the mean of the faces (edges) that bound the cell")
    ctx.rule("divergence", "the divergence of a face centered field is the flux difference over the cell")
    ctx.rule("stagger", "fields of either staggering and flipped axes give the same element for the same cell")
    ctx.rule("recenter", "moving values to another centering keeps them and gives them their coordinates")
    ctx.rule("pad", "padding keeps the interior and extends values and coordinates to the stated order")
    vn = VN(ctx, 6000000)

    def probe(expr, g, info=()):
        it = vn.interp(dict(HOOKS), None)
        r = it.probe(M, SRC % dict(expr=expr, center=g.center), [g.crd, g.arg, list(info)])
        vn.reached |= it.calls
        return r

    def do(rule, name, qual, expr, g, chk, info=()):
        vn.defer(rule, name, qual, lambda: chk(probe(expr, g, info)))

    for n in (NS, (5, 4, 2), (2, 4, 5), (4, 2, 5)):
        ecfc(do, n)
    stagger(do)
    recenter(do)
    padding(do, vn)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 10, "interpreted functions")


def lead(g, edge=None):
    """leading fields: element k of component c is at the lower end of cell k"""
    s = g.s

    def up(i, ax):
        return i if s[ax] == 1 else i + 1

    def face(c, *i):
        j = list(i)
        j[c] = up(i[c], c)
        return avg(g(c, *i), g(c, *j))

    def edg(c, *i):
        o = [ax for ax in range(3) if ax != c]
        vals = []
        for du, dv in itertools.product((0, 1), repeat=2):
            j = list(i)
            j[o[0]] = up(i[o[0]], o[0]) if du else i[o[0]]
            j[o[1]] = up(i[o[1]], o[1]) if dv else i[o[1]]
            vals.append(g(c, *j))
        return avg(*vals)

    def div(c, *i):
        t = P.of(0)
        for m in range(3):
            if s[m] == 1:
                continue
            j = list(i)
            j[m] = i[m] + 1
            x = g.nodes(m)
            t = t + (g(m, *j) - g(m, *i)) / (x[i[m] + 1] - x[i[m]])
        return t
    return face, edg, div


def ecfc(do, n):
    for nm, center, op, lay in (("fc2cc", "Face", 0, "flat"), ("fc2cc", "Face", 0, "interlaced"),
                                ("ec2cc", "Edge", 1, "flat"), ("ec2cc", "Edge", 1, "interlaced"),
                                ("div_fc", "Face", 2, "flat"), ("div_fc", "Face", 2, "interlaced")):
        if lay == "interlaced" and n != NS:
            continue
        g = Grid(n, center, 3, lay)
        fn = lead(g)[op]
        nc = 1 if op == 2 else 3
        dims = tuple(m if m == 1 else m - 1 for m in g.s)
        nodes = [g.nodes(ax) if g.s[ax] == 1 else g.nodes(ax)[:-1] for ax in range(3)]
        rule = "divergence" if op == 2 else "average"

        def want(c, *i, fn=fn):
            return fn(c, *i)

        def wantb(c, *i, fn=fn, dims=dims):
            return fn(c, *[min(max(x - 1, 0), m - 1) for x, m in zip(i, dims)]) if sum(
                x < 1 or x > m for x, m in zip(i, dims)) == 0 else edgeval(fn, c, i, dims)

        for np_ in (True, False):
            tag = "%s/%s %dx%dx%d %s" % (nm, lay, *n, "numpy" if np_ else "numexpr")
            do(rule, tag + " bnd=False", "viscid.calculator.ecfc." + nm,
               "%s(f, force_numpy=%s, bnd=False)" % (nm, np_), g,
               lambda o, nc=nc, w=want, dims=dims, nodes=nodes: check(o, nc if nc == 3 else 0, w, dims, nodes, "cell",
                                                                     [mids(x) for x in nodes]))
            pn = [pad(x, 1, 1, 1) for x in nodes]
            do(rule, tag + " bnd=True", "viscid.calculator.ecfc." + nm,
               "%s(f, force_numpy=%s, bnd=True)" % (nm, np_), g,
               lambda o, nc=nc, w=wantb, dims=dims, pn=pn: check(o, nc if nc == 3 else 0, w, tuple(m + 2 for m in dims), pn, "cell"))
        if op < 2:
            do("recenter", "as_cell_centered/%s %s %dx%dx%d" % (center, lay, *n), "viscid.field.Field.as_cell_centered",
               "f.as_cell_centered()", g,
               lambda o, w=wantb, dims=dims, nodes=nodes: check(o, 3, w, tuple(m + 2 for m in dims), [pad(x, 1, 1, 1) for x in nodes], "cell"))


def edgeval(fn, c, i, dims):
    """values outside of the interior: held constant"""
    return fn(c, *[min(max(x - 1, 0), m - 1) for x, m in zip(i, dims)])


def stagger(do):
    """element k of component c of an axis is at the upper end of cell k iff trailing xor flipped"""
    for center in ("Face", "Edge"):
        for st, fl, n in [(st, fl, n) for st in ([0, 0, 0], [1, 1, 1])
                          for fl in ([False] * 3, [True] * 3, [True, True, False], [False, False, True])
                          for n in (NS, (2, 4, 5), (5, 4, 2), (4, 2, 4))]:
            if n == NS or fl == [True, True, False]:
                g = Grid(n, center, 3, "flat")
                s = g.s

                def want(c, *i, center=center, st=st, fl=fl, g=g):
                    # cells 1 .. n - 1 of the input; the element at the lower end of each cell
                    idx = []
                    for ax in range(3):
                        if g.s[ax] == 1:
                            idx.append(0)
                            continue
                        k = i[ax] + 1
                        staggered = (ax == c) if center == "Face" else (ax != c)
                        if staggered and (st[ax] == 1) != bool(fl[ax]):
                            k -= 1          # the upper end of the cell below
                        idx.append(k)
                    return g(c, *idx)
                dims = tuple(max(m - 1, 1) for m in s)
                nodes = [g.nodes(ax)[1:] if s[ax] > 1 else g.nodes(ax) for ax in range(3)]
                do("stagger", "make_ecfc_field_leading/%s staggering=%s flip=%s %dx%dx%d" % (center, st, fl, *n),
                   "viscid.calculator.ecfc.make_ecfc_field_leading", "make_ecfc_field_leading(f)", g,
                   lambda o, want=want, dims=dims, nodes=nodes, center=center: check(o, 3, want, dims, nodes, center.lower()),
                   info=[("ecfc_preprocessed", False), ("ecfc_staggering", st), ("ecfc_flip", fl)])
        g = Grid(NS, center, 3, "flat")
        for inf in ([("ecfc_preprocessed", True)], []):
            do("stagger", "make_ecfc_field_leading/%s already leading %d" % (center, len(inf)),
               "viscid.calculator.ecfc.make_ecfc_field_leading", "make_ecfc_field_leading(f)", g,
               lambda o, g=g, center=center: check(o, 3, g, g.s, [g.nodes(ax) for ax in range(3)], center.lower()), info=inf)


def ends(x, y):
    """cell centers extended half a cell: nodes of cells centered on the nodes x"""
    return [x[0] - (x[1] - x[0]) / 2] + mids(x) + [x[-1] + (x[-1] - x[-2]) / 2]


def recenter(do):
    for nr, lay in ((0, "flat"), (3, "flat"), (3, "interlaced")):
        t = "%s %s" % ("vector" if nr else "scalar", lay)
        g = Grid(NS, "Node", nr, lay)
        raw = [g.nodes(ax) for ax in range(3)]
        ext = [[x[0] - (x[1] - x[0])] + mids(x) + [x[-1] + (x[-1] - x[-2])] for x in raw]
        # inner cell edges lie half way between the nodes
        do("recenter", "as_cell_centered/Node " + t, "viscid.field.Field.as_cell_centered", "f.as_cell_centered()", g,
           lambda o, g=g: check(o, g.nr, g, g.s, [], "cell") or inner(o, g))
        do("recenter", "as_node_centered/Node " + t, "viscid.field.Field.as_node_centered", "f.as_node_centered()", g,
           lambda o, g=g, raw=raw: check(o, g.nr, g, g.s, raw, "node"))
        do("recenter", "as_centered(cell)/Node " + t, "viscid.field.Field.as_centered", "f.as_centered('cell')", g,
           lambda o, g=g: check(o, g.nr, g, g.s, [], "cell") or inner(o, g))
        h = Grid(NS, "Cell", nr, lay)
        raw = [h.nodes(ax) for ax in range(3)]
        for e, q in (("f.as_node_centered()", "as_node_centered"), ("f.as_centered('node')", "as_centered")):
            do("recenter", "%s/Cell %s" % (q, t), "viscid.field.Field." + q, e, h,
               lambda o, h=h, raw=raw: check(o, h.nr, h, h.s, [mids(x) for x in raw], "node"))
        do("recenter", "as_cell_centered/Cell " + t, "viscid.field.Field.as_cell_centered", "f.as_cell_centered()", h,
           lambda o, h=h, raw=raw: check(o, h.nr, h, h.s, raw, "cell", [mids(x) for x in raw]))


def inner(o, g):
    """cells around nodes: their inner edges are half way between the nodes, the number of
    cells is the number of nodes, and the outer edges lie beyond the first and last node"""
    for ax, nc in enumerate(o[2]):
        x = g.nodes(ax)
        if not isinstance(nc, A) or nc.dims != (len(x) + 1,):
            return "%s nodes along %s for %d cells" % (getattr(nc, "dims", "?"), "xyz"[ax], len(x))
        m = differ(arr(list(nc.a[1:-1])), arr(mids(x)), "inner cell edges along %s: " % "xyz"[ax])
        if m:
            return m
    return None


def padding(do, vn):
    q = "viscid.calculator.calc.extend_boundaries"
    for center in ("Node", "Cell"):
        for nr, lay in ((0, "flat"), (3, "flat"), (3, "interlaced")):
            for nl, nh in ((1, 1), (2, 0), (0, 2), (2, 1)):
                if nr and (nl, nh) in ((0, 2), (2, 0)):
                    continue
                for order in (0, 1):
                    for axes, ids in (("'all'", (0, 1, 2)), ("'x'", (0,)), ("'yz'", (1, 2)), ("['z']", (2,))):
                        if nr and len(ids) == 1 and (nl, nh) != (2, 1):
                            continue
                        one_pad(do, q, center, nr, lay, nl, nh, order, axes, ids)
    # plain arrays
    for nl, nh in ((1, 1), (2, 0), (0, 3), (3, 2)):
        for order in (0, 1):
            for axes, ids in ((None, (0, 1)), ("[0]", (0,)), ("[1]", (1,))):
                expr = "viscid.calculator.calc.extend_boundaries_ndarr(f, nl=%d, nh=%d, order=%d%s)" % (
                    nl, nh, order, ", axes=" + axes if axes else "")
                vn.defer("pad", "extend_boundaries_ndarr/nl=%d nh=%d order=%d axes=%s" % (nl, nh, order, axes or "default"),
                         q + "_ndarr", lambda expr=expr, a=(nl, nh, order, ids): ndarr(vn, expr, *a))
        expr = "viscid.calculator.calc.extend_boundaries_ndarr(f, nl=%d, nh=%d, axes=[0, 1], nr_comp=0, order=1)" % (nl, nh)
        vn.defer("pad", "extend_boundaries_ndarr/nl=%d nh=%d order=1 nr_comp=0" % (nl, nh),
                 q + "_ndarr", lambda expr=expr, a=(nl, nh): ndarr(vn, expr, a[0], a[1], 1, (1, 2), (2, 3, 4)))


def box(vals, dims, ids, nl, nh, order):
    """values of the extended box where at most one axis is outside of the original one;
    with order 0 or 1 each line along an extended axis is extended on its own"""
    def want(c, *i):
        out = [ax for ax in range(len(dims)) if ax in ids and not nl <= i[ax] < nl + dims[ax]]
        j = [x - nl if ax in ids else x for ax, x in enumerate(i)]
        if len(out) > 1:
            return None
        if not out:
            return vals(c, *j)
        ax = out[0]
        line = []
        for k in range(dims[ax]):
            jj = list(j)
            jj[ax] = k
            line.append(vals(c, *jj))
        return pad(line, nl, nh, order)[i[ax]]
    return want


def ndarr(vn, expr, nl, nh, order, ids, dims=(3, 4)):
    it = vn.interp(dict(HOOKS), None)
    a = symarr("a", dims)
    r = it.probe(M, "def probe(f):\n    return [%s, f]" % expr, [a])
    vn.reached |= it.calls
    got, f = r
    want = tuple(m + nl + nh if ax in ids else m for ax, m in enumerate(dims))
    if not isinstance(got, A) or got.dims != want:
        return "the result has shape %s instead of %s" % (getattr(got, "dims", "?"), want)
    w = box(lambda c, *i: P_(a.a[i]), dims, ids, nl, nh, order)
    for i in itertools.product(*[range(m) for m in want]):
        v = w(0, *i)
        m = v is not None and differ(got.a[i], v, "at %s: " % (i,))
        if m:
            return m
    return differ(f, a, "the argument changed: ")


def one_pad(do, q, center, nr, lay, nl, nh, order, axes, ids):
    g = Grid(NS, center, nr, lay)
    s = g.s
    w = box(g, s, ids, nl, nh, order)
    dims = tuple(m + nl + nh if ax in ids else m for ax, m in enumerate(s))
    raw = [g.nodes(ax) for ax in range(3)]
    nodes = [pad(x, nl, nh, 1) if ax in ids else x for ax, x in enumerate(raw)]
    nodes0 = [pad(x, nl, nh, 0) if ax in ids else x for ax, x in enumerate(raw)]
    tag = "%s %s %s nl=%d nh=%d order=%d axes=%s" % (center, "vector" if nr else "scalar", lay, nl, nh, order, axes)
    do("pad", "extend_boundaries/" + tag, q,
       "viscid.extend_boundaries(f, nl=%d, nh=%d, axes=%s, order=%d)" % (nl, nh, axes, order), g,
       lambda o: check(o, nr, w, dims, nodes, center.lower()))
    if order and not nr:
        do("pad", "extend_boundaries/%s crd_order=0" % tag, q,
           "viscid.extend_boundaries(f, nl=%d, nh=%d, axes=%s, order=1, crd_order=0)" % (nl, nh, axes), g,
           lambda o: check(o, nr, w, dims, nodes0, center.lower()))
