"""Value numbering of the field operators (viscid/calculator/calc.py, necalc.py): every backend of
every operator is interpreted on fields whose values and coordinates are symbols and must
produce the textbook formula, element by element, on the right grid and centering."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, B, var
from ..interp import A, Obj, Native, Fn, symarr, arr, Unsupp, Raised
from ..vn import VN, differ, zero
from .c16 import generic_close

M = "viscid.calculator.calc"
NS = (4, 5, 6)                      # nodes along x, y, z
OPS = ("neg", "scale", "add", "diff", "mul", "axpby", "relative_diff", "abs_diff", "abs_val",
       "abs_max", "abs_min", "magnitude", "dot", "cross", "project", "normalize", "grad", "div", "curl")


def allclose(it, a, k):
    r = generic_close(it, a, k)
    return alg.band(*r.a.reshape(-1)) if isinstance(r, A) else r


HOOKS = {"numpy.allclose": allclose}


def crds(n=NS):
    return [symarr(x, (m,)) for x, m in zip("xyz", n)]


def shape(center, n=NS):
    return tuple(m - 1 if center == "cell" else m for m in n)


def vals(a):
    return [P.of(x) for x in a.a.reshape(-1)]


SETUP = '''
def probe(dats, cc):
    crds = viscid.wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    f = [viscid.wrap_field(d[0], crds, name=n, center="%(center)s", fldtype=d[1], layout=d[2], time=0.0)
         for n, d in zip("ABC", dats) if d[1]]
    r = %(expr)s
    if not isinstance(r, viscid.field.Field):
        return r, None, None, None
    return [r.component_views() if r.nr_comps else [r], r.center, r.get_crds_nc(), r.nr_comps]
'''


class Calc:
    def __init__(self, ctx):
        self.vn = VN(ctx, 6000000)

    def run(self, expr, dats, center, n=NS):
        it = self.vn.interp(dict(HOOKS), None)
        cc = crds(n)
        src = SETUP % dict(expr=expr, center=center)
        comps, cen, nc, nrc = it.probe(M, src, [dats, cc])
        self.vn.reached |= it.calls
        if cen is None:
            return comps, None, None, nrc
        data = [it.getattr(c, "data") if isinstance(c, Obj) else c
                for c in comps]
        return data, cen, nc, nrc


def field(name, center, nr=0, layout="flat", n=NS):
    """(data argument, accessor (component, i, j, k) -> value)"""
    s = shape(center, n)
    if not nr:
        a = symarr(name, s)
        return (a, "scalar", "flat"), lambda c, i, j, k: P.of(a.a[i, j, k])
    if layout == "flat":
        a = symarr(name, (nr,) + s)
        return (a, "vector", "flat"), lambda c, i, j, k: P.of(a.a[c, i, j, k])
    a = symarr(name, s + (nr,))
    return (a, "vector", "interlaced"), lambda c, i, j, k: P.of(a.a[i, j, k, c])


def compare(out, ncomp, want, center, dims, nc=None):
    data, cen, gnc, n = out
    if cen is None:
        return "the result is not a field"
    if cen.lower() != center:
        return "the result is %s centered instead of %s" % (cen, center)
    if len(data) != max(ncomp, 1):
        return "%d components instead of %d" % (len(data), max(ncomp, 1))
    for c, d in enumerate(data):
        if not isinstance(d, A):
            raise Unsupp("component is not an array")
        if d.dims != dims:
            return "values have shape %s instead of %s" % (d.dims, dims)
        for i in itertools.product(*[range(m) for m in dims]):
            m = differ(d.a[i], want(c, *i), "component %d at %s: " % (c, i))
            if m:
                return m
    for ax, (g, w) in enumerate(zip(gnc, nc or crds())):
        m = differ(g, w, "coordinate %s: " % "xyz"[ax])
        if m:
            return m
    return None


def run(ctx):
    ctx.rule("formula", "the value of every element is the textbook expression in the operands")
    ctx.rule("stencil", "derivatives are differences of the neighbouring values over the distance of their coordinates")
    ctx.rule("grid", "the result lives on the grid and centering of the operand")
    ctx.rule("backends", "every registered implementation of the operator computes the same function")
    it0 = VN(ctx).interp(dict(HOOKS), None)
    backends = {}
    for op in OPS:
        try:
            o = it0.probe(M, "def probe():\n    return %s" % op, [])
            names = it0.probe(M, "def probe():\n    return list(%s._imps.keys())" % op, [])
            backends[op] = [n for n in names if isinstance(n, str)]
        except (Unsupp, Raised) as e:
            ctx.undecided("backends", op, str(e)[:100])
            backends[op] = []
    ctx.stats["implementations"] = sum(map(len, backends.values()))
    ctx.need(sum(map(len, backends.values())), 10, "operator implementations")
    k = Calc(ctx)

    def do(rule, op, tag, expr, dats, center, check, n=NS):
        """all backends; check(out) -> None or text"""
        for be in backends[op]:
            e = expr.replace("OP(", op + "(").replace("BE", "preferred=%r, only=True" % be)
            k.vn.defer(rule, "%s/%s/%s" % (op, be, tag), M + ".Operation.__call__",
                       lambda e=e: check(k.run(e, dats, center, n)))

    # pointwise operators
    for center, lay in (("node", "flat"), ("cell", "flat"), ("cell", "interlaced")):
        pointwise(do, center, lay)
    # extents that equal the number of components
    for center, lay, n in (("node", "interlaced", (3, 4, 5)), ("node", "flat", (4, 5, 3)), ("cell", "interlaced", (5, 4, 4)),
                           ("node", "interlaced", (4, 3, 2)), ("cell", "flat", (4, 3, 5)), ("cell", "interlaced", (2, 5, 4))):
        pointwise(do, center, lay, n)
    # derivatives
    for center in ("node", "cell"):
        for bnd in (True, False):
            derivs(k, do, center, bnd)
    for center, bnd, n in (("node", True, (3, 4, 5)), ("cell", True, (3, 5, 4)), ("node", False, (3, 5, 4))):
        derivs(k, do, center, bnd, n)
    k.vn.run_deferred()
    k.vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 10, "interpreted functions")


def pointwise(do, center, lay, n=NS):
    S = shape(center, n)
    tag = "%s %s" % (center, lay) + (" %dx%dx%d" % n if n != NS else "")
    dA, a = field("a", center, 3, lay, n)
    dB, b = field("b", center, 3, lay, n)
    dS, s = field("s", center, 0, lay, n)
    dT, t = field("t", center, 0, lay, n)
    p, q = var("p"), var("q")
    cases = [
        ("neg", "OP(f[0], BE)", [dA], 3, lambda c, *i: -a(c, *i)),
        ("add", "OP(f[0], f[1], BE)", [dA, dB], 3, lambda c, *i: a(c, *i) + b(c, *i)),
        ("diff", "OP(f[0], f[1], BE)", [dA, dB], 3, lambda c, *i: a(c, *i) - b(c, *i)),
        ("mul", "OP(f[0], f[1], BE)", [dA, dB], 3, lambda c, *i: a(c, *i) * b(c, *i)),
        ("relative_diff", "OP(f[0], f[1], BE)", [dA, dB], 3, lambda c, *i: (a(c, *i) - b(c, *i)) / a(c, *i)),
        ("abs_diff", "OP(f[0], f[1], BE)", [dA, dB], 3, lambda c, *i: alg.fabs(a(c, *i) - b(c, *i))),
        ("abs_val", "OP(f[0], BE)", [dA], 3, lambda c, *i: alg.fabs(a(c, *i))),
        ("scale", "OP(dats[1][0], f[0], BE)", [dA, (p, "", "")], 3, lambda c, *i: p * a(c, *i)),
        ("axpby", "OP(dats[2][0], f[0], dats[3][0], f[1], BE)", [dA, dB, (p, "", ""), (q, "", "")], 3,
         lambda c, *i: p * a(c, *i) + q * b(c, *i)),
        ("magnitude", "OP(f[0], BE)", [dA], 0, lambda c, *i: alg.sqrt(sum((a(m, *i) ** 2 for m in range(3)), P.of(0)))),
        ("dot", "OP(f[0], f[1], BE)", [dA, dB], 0, lambda c, *i: sum((a(m, *i) * b(m, *i) for m in range(3)), P.of(0))),
        ("project", "OP(f[0], f[1], BE)", [dA, dB], 0,
         lambda c, *i: sum((a(m, *i) * b(m, *i) for m in range(3)), P.of(0)) /
         alg.sqrt(sum((b(m, *i) ** 2 for m in range(3)), P.of(0)))),
        ("normalize", "OP(f[0], BE)", [dA], 3,
         lambda c, *i: a(c, *i) / alg.sqrt(sum((a(m, *i) ** 2 for m in range(3)), P.of(0)))),
        ("cross", "OP(f[0], f[1], BE)", [dA, dB], 3,
         lambda c, *i: a((c + 1) % 3, *i) * b((c + 2) % 3, *i) - a((c + 2) % 3, *i) * b((c + 1) % 3, *i)),
    ]
    if lay == "flat":
        cases += [("add", "OP(f[0], f[1], BE)", [dS, dT], 0, lambda c, *i: s(0, *i) + t(0, *i)),
                  ("diff", "OP(f[0], f[1], BE)", [dS, dT], 0, lambda c, *i: s(0, *i) - t(0, *i)),
                  ("mul", "OP(f[0], f[1], BE)", [dS, dT], 0, lambda c, *i: s(0, *i) * t(0, *i)),
                  ("scale", "OP(dats[1][0], f[0], BE)", [dS, (p, "", "")], 0, lambda c, *i: p * s(0, *i)),
                  ("axpby", "OP(dats[2][0], f[0], dats[3][0], f[1], BE)", [dS, dT, (p, "", ""), (q, "", "")], 0,
                   lambda c, *i: p * s(0, *i) + q * t(0, *i)),
                  ("neg", "OP(f[0], BE)", [dS], 0, lambda c, *i: -s(0, *i)),
                  ("abs_val", "OP(f[0], BE)", [dS], 0, lambda c, *i: alg.fabs(s(0, *i)))]
    for op, ex, dats, nc, want in cases:
        do("formula", op, tag + (" vector" if dats[0] is dA else " scalar"),
           ex, dats, center,
           lambda out, nc=nc, want=want: compare(out, nc, want, center, S, crds(n)), n)


def derivs(k, do, center, bnd, n=NS):
    S = shape(center, n)
    cc = [[P.of(x) for x in c.a] for c in crds(n)]
    pts = cc if center == "node" else [[(u + v) / 2 for u, v in zip(c, c[1:])] for c in cc]
    dA, a = field("a", center, 3, "flat", n)
    dB, b = field("b", center, 3, "flat", n)
    dI, ai = field("a", center, 3, "interlaced", n)
    dS, s = field("s", center, 0, "flat", n)
    tag = "%s bnd=%s" % (center, bnd) + (" %dx%dx%d" % n if n != NS else "")
    o = 0 if bnd else 1
    dims = tuple(m - 2 * o for m in S)
    nodes = crds(n) if bnd else [arr(c[1:-1]) for c in cc]

    def d(g, ax, i):
        """difference quotient of g along ax; g(i, j, k)"""
        lo, hi = list(i), list(i)
        lo[ax], hi[ax] = max(i[ax] - 1, 0), min(i[ax] + 1, S[ax] - 1)
        return (g(*hi) - g(*lo)) / (pts[ax][hi[ax]] - pts[ax][lo[ax]])

    def at(i):
        return tuple(x + o for x in i)

    def comp(f, c):
        return lambda *i: f(c, *i)

    def case(op, expr, dats, nc, want, extra=""):
        do("stencil", op, tag + extra, expr.replace("BND", "bnd=%s" % bnd), dats, center,
           lambda out: compare(out, nc, want, center, dims, nodes), n)

    case("grad", "OP(f[0], BND, BE)", [dS], 3, lambda c, *i: d(comp(s, 0), c, at(i)))
    for dd, f, ex in ((dA, a, ""), (dI, ai, " interlaced")):
        case("div", "OP(f[0], BND, BE)", [dd], 0,
             lambda c, *i, f=f: sum((d(comp(f, m), m, at(i)) for m in range(3)), P.of(0)), ex)
        case("curl", "OP(f[0], BND, BE)", [dd], 3,
             lambda c, *i, f=f: d(comp(f, (c + 2) % 3), (c + 1) % 3, at(i)) - d(comp(f, (c + 1) % 3), (c + 2) % 3, at(i)), ex)
    for nm, ex, dats, nc, want in (
            ("convective_deriv/of scalar", "convective_deriv(f[0], f[1], bnd=%s)" % bnd, [dA, dS], 0,
             lambda c, *i: sum((a(m, *at(i)) * d(comp(s, 0), m, at(i)) for m in range(3)), P.of(0))),
            ("convective_deriv/of vector", "convective_deriv(f[0], f[1], bnd=%s)" % bnd, [dA, dB], 3,
             lambda c, *i: sum((a(m, *at(i)) * d(comp(b, c), m, at(i)) for m in range(3)), P.of(0))),
            ("convective_deriv/of itself", "convective_deriv(f[0], bnd=%s)" % bnd, [dA], 3,
             lambda c, *i: sum((a(m, *at(i)) * d(comp(a, c), m, at(i)) for m in range(3)), P.of(0)))):
        k.vn.defer("stencil", "%s/%s" % (nm, tag), M + ".convective_deriv",
                   lambda ex=ex, dats=dats, nc=nc, want=want: compare(k.run(ex, dats, center, n), nc, want, center, dims, nodes))
