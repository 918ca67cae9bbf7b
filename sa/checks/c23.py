"""Value numbering of field indexing (viscid/field.py, coordinate.py, sliceutil.py): every kind of
selection is interpreted on a field of symbols; the values, the coordinates and the
centering of the result must be those of the selected elements."""
from __future__ import annotations
import itertools
import numpy as _np
from .. import alg
from ..alg import P, B, var
from ..interp import A, Obj, symarr, arr, Unsupp, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS, crds, shape

M = "viscid.field"
NS = (5, 6, 7)
SRC = '''
def probe(cc, d, v, w):
    crds = viscid.coordinate.wrap_crds("%(kind)s", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    f = wrap_field(d[0], crds, name="A", center="%(center)s", fldtype=d[1], layout=d[2], time=3.0)
    r = %(expr)s
    if not isinstance(r, Field):
        return [r, None, None, None, None, f.data, None, None]
    return [r.data, r.center, r.get_crds_nc(), r.get_crds_cc(), r.nr_comps, f.data, r.crds.axes, r.time]
'''


def nodes(n=NS):
    return [symarr(x, (m,)) for x, m in zip("xyz", n)]


def centers(cs):
    return [arr([(u + v) / 2 for u, v in zip(c.a, c.a[1:])]) for c in cs]


S_ = slice


# selection text, what it means per axis ('x','y','z'); ints reduce
INDEX = [
    ("f['x=1:']", (S_(1, None), S_(None), S_(None))),
    ("f['x=-2:']", (S_(-2, None), S_(None), S_(None))),
    ("f['x=:2']", (S_(None, 2), S_(None), S_(None))),
    ("f['y=:-2']", (S_(None), S_(None, -2), S_(None))),
    ("f['y=1:-1']", (S_(None), S_(1, -1), S_(None))),
    ("f['z=-4:-1']", (S_(None), S_(None), S_(-4, -1))),
    ("f['z=::2']", (S_(None), S_(None), S_(None, None, 2))),
    ("f['z=1::2']", (S_(None), S_(None), S_(1, None, 2))),
    ("f['z=1:4:2']", (S_(None), S_(None), S_(1, 4, 2))),
    ("f['y=::-1']", (S_(None), S_(None, None, -1), S_(None))),
    ("f['y=3:0:-1']", (S_(None), S_(3, 0, -1), S_(None))),
    ("f['y=3::-1']", (S_(None), S_(3, None, -1), S_(None))),
    ("f['y=-1:-4:-1']", (S_(None), S_(-1, -4, -1), S_(None))),
    ("f['y=-2:1:-1']", (S_(None), S_(-2, 1, -1), S_(None))),
    ("f['y=::-2']", (S_(None), S_(None, None, -2), S_(None))),
    ("f['x=1']", (1, S_(None), S_(None))),
    ("f['x=-1']", (-1, S_(None), S_(None))),
    ("f['y=-3']", (S_(None), -3, S_(None))),
    ("f['x=1,z=2']", (1, S_(None), 2)),
    ("f['z=0, x=1:3']", (S_(1, 3), S_(None), 0)),
    ("f['x=1:3,y=::2,z=-3:']", (S_(1, 3), S_(None, None, 2), S_(-3, None))),
    ("f['x=1_y=2:4']", (1, S_(2, 4), S_(None))),
    ("f['1:3']", (S_(1, 3), S_(None), S_(None))),
    ("f[':, 2']", (S_(None), 2, S_(None))),
    ("f['..., 2']", (S_(None), S_(None), 2)),
    ("f['1, ..., 2:']", (1, S_(None), S_(2, None))),
    ("f[1]", (1, S_(None), S_(None))),
    ("f[-2]", (-2, S_(None), S_(None))),
    ("f[1:3]", (S_(1, 3), S_(None), S_(None))),
    ("f[1:3, 2]", (S_(1, 3), 2, S_(None))),
    ("f[..., 2]", (S_(None), S_(None), 2)),
    ("f[:, 1:-1, ::-1]", (S_(None), S_(1, -1), S_(None, None, -1))),
    ("f[:, 'y=1:3']", None),
    ("f[...]", (S_(None),) * 3),
    ("f[:]", (S_(None),) * 3),
    ("f['x=[0, 2]']", ([0, 2], S_(None), S_(None))),
    ("f['y=[0, 1, 3]']", (S_(None), [0, 1, 3], S_(None))),
    ("f[[0, 2]]", ([0, 2], S_(None), S_(None))),
    ("f[1:3][1:]", (S_(2, 3), S_(None), S_(None))),
    ("f['x=1:']['x=1:', 'y=2']", (S_(2, None), 2, S_(None))),
    ("f['x=::-1']['x=1:3']", (S_(-2, -4, -1), S_(None), S_(None))),
]
KEEP = [
    ("f.slice_keep('x=1')", (S_(1, 2), S_(None), S_(None))),
    ("f.slice_keep('x=-1')", (S_(-1, None), S_(None), S_(None))),
    ("f.slice_keep('y=-2')", (S_(None), S_(-2, -1), S_(None))),
    ("f.slice_keep('y=-3')", (S_(None), S_(-3, -2), S_(None))),
    ("f.slice_keep('z=2,x=0')", (S_(0, 1), S_(None), S_(2, 3))),
    ("f.slice_keep('z=1:3,x=0')", (S_(0, 1), S_(None), S_(1, 3))),
    ("f.slice_and_keep('y=1')", (S_(None), S_(1, 2), S_(None))),
]
REDUCE = [
    ("f.slice_reduce('x=1:2')", (1, S_(None), S_(None))) if False else ("f['x=1:2'].slice_reduce(':')", (1, S_(None), S_(None))),
    ("f.slice_reduce('x=2')", (2, S_(None), S_(None))),
    ("f.slice_and_reduce('y=-1,z=1:3')", (S_(None), -1, S_(1, 3))),
]
ARRANGE = [
    ("f.T", (2, 1, 0)), ("f.transpose()", (2, 1, 0)), ("f.transpose(1, 0, 2)", (1, 0, 2)),
    ("f.transpose(2, 0, 1)", (2, 0, 1)), ("np.transpose(f)", (2, 1, 0)), ("f.spatial_transpose()", (2, 1, 0)),
    ("f.spatial_transpose(1, 2, 0)", (1, 2, 0)), ("f.swapaxes(0, 1)", (1, 0, 2)), ("f.swapaxes(0, 2)", (2, 1, 0)),
]


def pick(c, s):
    return A(c.a[s if not isinstance(s, list) else _np.array(s)])


def expected(a, comp, sel, center, ns, nc=None):
    """values, axis names, node coordinates or None, cell coordinates"""
    nc = nc or nodes(ns)
    cc = centers(nc)
    val = a
    # component first (flat view)
    idx = tuple(_np.array(s) if isinstance(s, list) else s for s in sel)
    names, gn, gc = [], [], []
    for i, s in enumerate(idx):
        if isinstance(s, int):
            continue
        names.append("xyz"[i])
        if center == "node":
            gn.append(pick(nc[i], sel[i]))
            gc.append(None)
        else:
            gc.append(pick(cc[i], sel[i]))
            if isinstance(s, slice) and s.step in (None, 1, -1):
                m = ns[i] - 1
                sel_c = range(m)[s]
                lo, hi = min(sel_c), max(sel_c)
                n = nc[i].a[lo:hi + 2]
                gn.append(A(n if (s.step or 1) > 0 else n[::-1]))
            else:
                gn.append(None)
    return idx, names, gn, gc


def compare(out, a, comp, lay, sel, center, ns, nc=None):
    data, cen, gnc, gcc, nrc, src, axes, t = out
    m = differ(src, a, "the source was changed: ")
    if m:
        return m
    idx, names, wn, wc = expected(a, comp, sel, center, ns, nc)
    if lay == "scalar":
        v = a.a[idx]
    elif lay == "flat":
        v = a.a[(slice(None) if comp is None else comp,) + idx]
    else:
        v = a.a[idx + (Ellipsis, slice(None) if comp is None else comp)]
    if not names and (lay == "scalar" or comp is not None):
        return differ(data, v if not isinstance(v, _np.ndarray) else v.reshape(-1)[0], "value ")
    if cen is None:
        return "the result is not a field"
    m = differ(data, A(v), "value ")
    if m:
        return m
    if list(axes) != names:
        return "axes %s instead of %s" % (list(axes), names)
    if cen.lower() != center:
        return "the result is %s centered" % cen
    for ax, g, w in zip(names, gnc, wn):
        m = w is not None and differ(g, w, "node coordinate %s: " % ax)
        if m:
            return m
    for ax, g, w in zip(names, gcc, wc):
        m = w is not None and differ(g, w, "cell coordinate %s: " % ax)
        if m:
            return m
    want = 0 if lay == "scalar" or comp is not None else 3
    if (nrc or 0) != want:
        return "%s components instead of %d" % (nrc, want)
    return differ(t, P.of(3), "time ")


def source(center, lay, ns=NS):
    s = shape(center, ns)
    a = symarr("a", s if lay == "scalar" else (3,) + s if lay == "flat" else s + (3,))
    return a, (a, "scalar" if lay == "scalar" else "vector", "flat" if lay == "scalar" else lay)


def ordered(center, ns, places):
    """coordinates in ascending order, the places p=(axis, position in units of the index) among them"""
    envs = []
    for jit in (0.0, 0.13, -0.09):
        e = {}
        for d, x in enumerate("xyz"):
            for i, q in enumerate(symarr(x, (ns[d],)).a):
                e[q.key] = 3.0 * d + i * (1.0 + 0.2 * jit) + jit * ((i * 7) % 4) * 0.4
        for nm, (d, pos) in places.items():
            cs = [e[q.key] for q in symarr("xyz"[d], (ns[d],)).a]
            if center == "cell":
                cs = [(u + v) / 2 for u, v in zip(cs, cs[1:])]
            if pos < 0:
                x = cs[0] - 0.5 * (cs[1] - cs[0])
            elif pos > len(cs) - 1:
                x = cs[-1] + 0.5 * (cs[-1] - cs[-2])
            else:
                j = min(int(pos), len(cs) - 2)
                x = cs[j] + (pos - j) * (cs[j + 1] - cs[j])
            e[var(nm).key] = x
        envs.append(e)
    return Order(*envs)


SET = '''
def probe(cc, d, v, w):
    crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    f = wrap_field(d[0], crds, name="A", center="%(center)s", fldtype=d[1], layout=d[2], time=3.0)
    %(expr)s = v
    return [f.data, f.get_crds_nc()]
'''


def assign(vn):
    cc = nodes()
    one = [(e, s, None) for e, s in INDEX if s is not None and e.count("[") == 1]
    for center, lay in (("node", "scalar"), ("cell", "scalar"), ("cell", "flat"), ("node", "interlaced")):
        cases = list(one)
        if lay != "scalar":
            for c, x in enumerate("xyz"):
                cases += [("f['%s']" % x, (S_(None),) * 3, c), ("f['%s, y=1:3']" % x, (S_(None), S_(1, 3), S_(None)), c),
                          ("f['x=1, %s']" % x, (1, S_(None), S_(None)), c)]
        for expr, sel, comp in cases:
            a, d = source(center, lay)
            want = a.a.copy()
            c = slice(None) if comp is None else comp
            want[sel if lay == "scalar" else (c,) + sel if lay == "flat" else sel + (c,)] = var("v")

            def thunk(expr=expr, d=(a.copy(),) + d[1:], want=want, center=center):
                it = vn.interp(dict(HOOKS), None)
                got, nc = it.probe(M, SET % dict(expr=expr, center=center), [cc, d, var("v"), var("w")])
                vn.reached |= it.calls
                return differ(got, A(want), "value ") or differ(nc, nodes(), "node coordinate ")
            vn.defer("assign", "%s = v/%s %s" % (expr, center, lay), M + ".Field.set_slice", thunk)


def run(ctx):
    ctx.rule("index", "an index selection takes the selected values and the coordinates of the same elements")
    ctx.rule("location", "a location selects the nearest element, a range of locations the elements inside it")
    ctx.rule("component", "a component selection takes that component on the same grid")
    ctx.rule("assign", "assigning to a selection changes the elements that the selection reads and no others")
    ctx.rule("arrange", "transposing moves values and coordinates together")
    vn = VN(ctx, 4000000)
    cc = nodes()

    def call(expr, center, d, order=None, kind="nonuniform_cartesian"):
        it = vn.interp(dict(HOOKS), None)
        if order is not None:
            it.decider = order
        r = it.probe(M, SRC % dict(expr=expr, center=center, kind=kind), [cc, d, var("v"), var("w")])
        vn.reached |= it.calls
        return r

    def case(rule, expr, center, lay, sel, comp=None, order=None, name=None):
        a, d = source(center, lay)

        def thunk():
            return compare(call(expr, center, d, order), a, comp, lay, sel, center, NS)
        vn.defer(rule, "%s/%s %s" % (name or expr, center, lay), M + ".Field.slice", thunk)

    # as many points as components along each axis: the shape of the values doesn't tell the layout
    for center, lay in (("node", "interlaced"), ("node", "flat"), ("cell", "interlaced"), ("cell", "flat")):
        for c, x in enumerate("xyz"):
            for expr, sel in (("f['x=1:4,y=1:4,z=1:4']['%s']", (S_(1, 4),) * 3),
                              ("f['x=1:4,y=1:4,z=2']['%s']", (S_(1, 4), S_(1, 4), 2)),
                              ("f['x=1,y=1:4,z=2']['%s']", (1, S_(1, 4), 2)),
                              ("(2 * f['x=:3,y=:3,z=:3'])['%s'] / 2", (S_(0, 3),) * 3),
                              ("f['x=1:4,y=1:4,z=1:4']['%s, x=1:, y=:2']", (S_(2, 4), S_(1, 3), S_(1, 4)))):
                case("component", expr % x, center, lay, sel, c)

    for center, lay in (("node", "scalar"), ("cell", "scalar"), ("node", "flat"), ("cell", "interlaced")):
        for expr, sel in INDEX + KEEP + REDUCE:
            if sel is not None and not (lay != "scalar" and isinstance(sel[0], list) and center == "node"):
                case("index", expr, center, lay, sel)
        if lay != "scalar":
            for c, x in enumerate("xyz"):
                case("component", "f['%s']" % x, center, lay, (S_(None),) * 3, c)
                case("component", "f['%s, y=1:3']" % x, center, lay, (S_(None), S_(1, 3), S_(None)), c)
                case("component", "f['x=1, %s']" % x, center, lay, (1, S_(None), S_(None)), c)
    locations(case)
    arrange(vn, call)
    assign(vn)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


def locations(case):
    for center in ("node", "cell"):
        for d in range(3):
            ax = "xyz"[d]
            n = NS[d] - (center == "cell")

            def full(s, d=d):
                return tuple(s if i == d else S_(None) for i in range(3))
            for pos in [-1, n] + [i + f for i in range(n - 1) for f in (0.3, 0.7)]:
                near = min(max(int(round(pos)), 0), n - 1)
                o = ordered(center, NS, {"v": (d, pos)})
                lead = ":, " * d
                case("location", "f[%s1j * v]" % lead, center, "scalar", full(near), None, o,
                     "%s at %s" % (ax, pos))
                if d == 0:
                    case("location", "f.loc[v]", center, "scalar", full(near), None, o, "loc %s at %s" % (ax, pos))
                first = next((i for i in range(n) if i > pos), n)
                last = next((i for i in reversed(range(n)) if i < pos), -1)
                if first < n:
                    case("location", "f[%s1j * v:]" % lead, center, "scalar", full(S_(first, None)), None, o,
                         "%s from %s" % (ax, pos))
                    case("location", "f[%s:1j * v:-1]" % lead, center, "scalar",
                         full(S_(None, first - 1 if first else None, -1)), None, o, "%s down to %s" % (ax, pos))
                if last >= 0:
                    case("location", "f[%s:1j * v]" % lead, center, "scalar", full(S_(None, last + 1)), None, o,
                         "%s to %s" % (ax, pos))
                    case("location", "f[%s1j * v::-1]" % lead, center, "scalar", full(S_(last, None, -1)), None, o,
                         "%s down from %s" % (ax, pos))
            for p, q in ((0.3, 2.6), (-1, 1.5), (1.5, n), (0.7, 1.2)):
                o = ordered(center, NS, {"v": (d, p), "w": (d, q)})
                lo = next(i for i in range(n) if i > p)
                hi = next(i for i in reversed(range(n)) if i < q)
                case("location", "f[%s1j * v:1j * w]" % (":, " * d), center, "scalar", full(S_(lo, hi + 1)), None, o,
                     "%s between %s and %s" % (ax, p, q))
                case("location", "f[%s1j * w:1j * v:-1]" % (":, " * d), center, "scalar",
                     full(S_(hi, lo - 1 if lo else None, -1)), None, o, "%s back between %s and %s" % (ax, p, q))


def arrange(vn, call):
    for center, lay in (("node", "scalar"), ("cell", "scalar")):
        for expr, perm in ARRANGE:
            a, d = source(center, lay)

            def thunk(expr=expr, perm=perm, a=a, d=d, center=center):
                data, cen, gnc, gcc, nrc, src, axes, t = call(expr, center, d)
                if cen is None:
                    return "the result is not a field"
                m = differ(data, A(a.a.transpose(perm)), "value ")
                if m:
                    return m
                if list(axes) != ["xyz"[i] for i in perm]:
                    return "axes are %s" % list(axes)
                return differ(gnc, [nodes()[i] for i in perm], "coordinates ")
            vn.defer("arrange", "%s/%s" % (expr, center), M + ".Field.transpose", thunk)
