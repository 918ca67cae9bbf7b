"""Value numbering of the estimates at points and along lines (viscid/calculator/calc.py,
plasma.py): the interpolated field is an uninterpreted function F_c(x, y, z) of the point it
is taken at, so the result shows which values are combined, at which points, with which weights."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, var, fn
from ..interp import A, Obj, Native, symarr, arr, Unsupp, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS, crds

M = "viscid.calculator.calc"
NS = (5, 6, 7)
PT = [var("X"), var("Y"), var("Z")]
D = [var("dx"), var("dy"), var("dz")]


def F(c, pt):
    return fn("F%s" % c, tuple(P.of(x) for x in pt))


def interp_hook(log):
    def h(it, a, k):
        names = ("vfield", "seeds", "kind", "wrap", "method")
        kw = dict(zip(names, a))
        kw.update(k)
        fld = kw["vfield"]
        log.append(kw.get("method") or kw.get("kind", "linear"))
        seeds = it.call_qual("viscid.seed.to_seeds", [kw["seeds"]])
        pts = it.call(it.getattr(seeds, "points"), [], {})
        if not isinstance(pts, A) or len(pts.dims) != 2 or pts.dims[0] != 3:
            raise Unsupp("points of the seeds")
        nc = it.getattr(fld, "nr_comps")
        n = pts.dims[1]
        col = [[pts.a[d, i] for d in range(3)] for i in range(n)]
        if nc:
            out = arr([[F("xyz"[c], p) for c in range(3)] for p in col])
        else:
            out = arr([F("", p) for p in col])
        if kw.get("wrap", True) is False:
            return out
        wrap = it.getattr(seeds, "wrap_field")
        kk = {"name": it.getattr(fld, "name")}
        if nc:
            kk.update(fldtype="vector", layout="interlaced")
        return it.call(wrap, [out], kk)
    return h


SRC = '''
def probe(cc, d, extra):
    crds = viscid.wrap_crds("nonuniform_cartesian", [(a, c) for a, c in zip(%(axes)r, cc)])
    f = viscid.wrap_field(d[0], crds, name="A", center="%(center)s", fldtype=d[1], layout=d[2], time=2.0)
    X, Y, Z, dx, dy, dz = extra[:6]
    lines = extra[6]
    more = extra[7]
    return %(expr)s
'''


def run(ctx):
    ctx.rule("derivative", "estimates at a point are centered differences over twice the step in each direction")
    ctx.rule("line", "integrals along a line sum the mean of the end values times the length of each segment")
    ctx.rule("flux", "the flux function integrates the in-plane components with the right signs from the stated corner")
    vn = VN(ctx, 6000000)

    def probe(expr, arg, center="cell", lines=(), more=None, ns=NS, order=None, axes="xyz", hooks=None):
        log = []
        h = interp_hook(log)
        hh = dict(HOOKS)
        for q in ("interp", "interp_trilin", "interp_linear", "interp_nearest"):
            hh["viscid.cython.cycalc." + q] = h
        hh["viscid.cython.cycalc.interp_nearest"] = lambda it, a, k: h(it, a, dict(k, kind="nearest"))
        hh.update(hooks or {})
        it = vn.interp(hh, None)
        if order:
            it.decider = order
        cc = [symarr(x, (m,)) for x, m in zip(axes, ns)]
        r = it.probe(M, SRC % dict(expr=expr, center=center, axes=list(axes)),
                     [cc, arg, PT + D + [list(lines), more]])
        vn.reached |= it.calls
        return r, log

    def fld(center, nr=3, layout="flat", ns=NS, name="a"):
        s = tuple(ns) if center == "node" else tuple(m - 1 for m in ns)
        if not nr:
            return (symarr(name, s), "scalar", "flat")
        return (symarr(name, (nr,) + s if layout == "flat" else s + (nr,)), "vector", layout)

    points(vn, probe, fld)
    atind(vn, probe, fld)
    alonglines(vn, probe, fld)
    fluxfn(vn, probe, fld)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 8, "interpreted functions")


def arrays(got, want, pre=""):
    if isinstance(got, Obj):
        raise Unsupp("result is an object")
    return differ(got, want, pre)


def moved(ax, d):
    p = list(PT)
    p[ax] = p[ax] + d
    return p


def place(idx, ns=NS, frac=0.2):
    """increasing coordinates, the point nearest to the cell center idx[d]"""
    envs = []
    for jit in (0.0, 0.07, -0.05):
        e = {}
        for d, n in enumerate(ns):
            cs = [d + k * (1 + 0.1 * d) + jit * (k % 3) for k in range(n)]
            for k, v in enumerate(cs):
                e[P.of(symarr("xyz"[d], (n,)).a[k]).key] = v
            cc = [(u + w) / 2 for u, w in zip(cs, cs[1:])]
            e[PT[d].key] = cc[idx[d]] + frac
            e[D[d].key] = 0.3 + 0.1 * d
        envs.append(e)
    return Order(*envs)


def points(vn, probe, fld):
    def jac(c, ax, st):
        return (F("xyz"[c], moved(ax, st[ax])) - F("xyz"[c], moved(ax, -st[ax]))) / (2 * st[ax])

    centers = [[(u + w) / 2 for u, w in zip(c.a, c.a[1:])] for c in crds(NS)]
    lasts = [m - 2 for m in NS]
    for tag, args, steps in (
            ("given steps", ", dx, dy, dz", [((1, 2, 3), 0.2, D), (lasts, 0.2, D)]),
            ("grid steps", "", [(i, f, None) for i in ((0, 0, 0), (1, 2, 3), lasts, (0, 3, lasts[2])) for f in (0.2, -0.2)]),
            ("step in y only", ", dy=dy", [((1, 2, 3), 0.2, "y")])):
        for idx, frac, st in steps:
            s = []
            for ax in range(3):
                lo = min(idx[ax], lasts[ax] - 1)
                g = centers[ax][lo + 1] - centers[ax][lo]
                s.append(g if st is None or st == "y" and ax != 1 else D[ax])
            for lay in ("flat", "interlaced"):
                if lay != "flat" and idx != (1, 2, 3):
                    continue
                nm = "%s nearest %s%+.1f %s" % (tag, tuple(idx), frac, lay)
                kw = dict(order=place(idx, frac=frac))
                a = fld("cell", layout=lay)

                def one(expr, want, a=a, kw=kw, log_kind=True):
                    r, log = probe(expr, a, **kw)
                    if any(k not in ("linear", "trilin", "trilinear") for k in log):
                        return "values are interpolated with kind %s" % log
                    return arrays(r, want)

                vn.defer("derivative", "jacobian_at_point/" + nm, M + ".jacobian_at_point",
                         lambda one=one, s=s, args=args: one(
                             "viscid.jacobian_at_point(f, X, Y, Z%s)" % args,
                             arr([[jac(c, ax, s) for ax in range(3)] for c in range(3)])))
                vn.defer("derivative", "div_at_point/" + nm, M + ".div_at_point",
                         lambda one=one, s=s, args=args: one(
                             "viscid.div_at_point(f, X, Y, Z%s)" % args, sum((jac(c, c, s) for c in range(3)), P.of(0))))
                vn.defer("derivative", "curl_at_point/" + nm, M + ".curl_at_point",
                         lambda one=one, s=s, args=args: one(
                             "viscid.curl_at_point(f, X, Y, Z%s)" % args,
                             arr([jac((c + 2) % 3, (c + 1) % 3, s) - jac((c + 1) % 3, (c + 2) % 3, s) for c in range(3)])))

                def lvp(a=a, kw=kw, s=s, args=args):
                    r, _ = probe("viscid.calculator.calc.local_vector_points(f, X, Y, Z%s)" % args, a, **kw)
                    bs, pts, dc = r
                    rows = [moved(k // 2, s[k // 2] if k % 2 else -s[k // 2]) for k in range(6)]
                    return arrays(pts, arr(rows), "points: ") or \
                        arrays(bs, arr([[F(c, p) for c in "xyz"] for p in rows]), "values: ") or \
                        arrays(arr([P.of(x) for x in dc]), arr(s), "steps: ")
                vn.defer("derivative", "local_vector_points/" + nm, M + ".local_vector_points", lvp)


def atind(vn, probe, fld):
    for center in ("cell", "node"):
        for lay in ("flat", "interlaced"):
            for idx in ((1, 1, 1), (2, 3, 4), (1, 3, 2)):
                a = fld(center, layout=lay)

                def go(a=a, idx=idx, center=center, lay=lay):
                    r, _ = probe("viscid.jacobian_at_ind(f, %d, %d, %d)" % idx, a, center)
                    xs = [[P.of(v) for v in c.a] for c in crds(NS)]
                    if center == "cell":
                        xs = [[(u + w) / 2 for u, w in zip(c, c[1:])] for c in xs]

                    def v(c, i):
                        return P.of(a[0].a[(c,) + tuple(i)] if lay == "flat" else a[0].a[tuple(i) + (c,)])

                    def dd(c, ax):
                        hi, lo = list(idx), list(idx)
                        hi[ax] += 1
                        lo[ax] -= 1
                        return (v(c, hi) - v(c, lo)) / (xs[ax][hi[ax]] - xs[ax][lo[ax]])
                    return arrays(r, arr([[dd(c, ax) for ax in range(3)] for c in range(3)]))
                vn.defer("derivative", "jacobian_at_ind/%s %s %s" % (center, lay, idx), M + ".jacobian_at_ind", go)


def alonglines(vn, probe, fld):
    L = {n: symarr("l%d" % n, (3, n)) for n in (2, 3, 5)}

    def pts(n):
        return [[P.of(L[n].a[d, i]) for d in range(3)] for i in range(n)]

    def norm(u):
        return alg.sqrt(sum((x * x for x in u), P.of(0)))

    def total(n, kind):
        p = pts(n)
        t = P.of(0)
        for u, w in zip(p, p[1:]):
            dv = [b - a for a, b in zip(u, w)]
            if kind == "dot":
                for c in range(3):
                    t = t + (F("xyz"[c], u) + F("xyz"[c], w)) / 2 * dv[c]
            elif kind == "mag":
                t = t + (norm([F(c, u) for c in "xyz"]) + norm([F(c, w) for c in "xyz"])) / 2 * norm(dv)
            else:
                t = t + (F("", u) + F("", w)) / 2 * norm(dv)
        return t

    cases = []
    for red, kind in (("'dot'", "dot"), ("'Dot '", "dot"), ("'mag'", "mag"), ("'magnitude'", "mag"), ("'norm'", "mag")):
        for lines in ((3, 2), (2, 3)) if kind == "dot" else ((3, 2, 5), (5, 3)):
            cases.append(("vector", "viscid.integrate_along_lines(lines, f, reduction=%s)" % red, kind, lines))
        cases.append(("vector", "[viscid.integrate_along_line(lines[0], f, reduction=%s)]" % red, kind, (3,) if kind == "dot" else (5,)))
    cases += [("vector", "viscid.integrate_along_lines(lines, f)", "dot", (2, 3, 2)),
              ("scalar", "viscid.integrate_along_lines(lines, f)", "scalar", (3, 5, 2)),
              ("scalar", "[viscid.integrate_along_line(lines[0], f)]", "scalar", (5,))]
    for ft, expr, kind, ns in cases:
        for ik in ("", "nearest"):
            e = expr if not ik else expr.replace(", f", ", f, interp_kind='nearest'")

            def go(ft=ft, e=e, kind=kind, ns=ns, ik=ik):
                r, log = probe(e, fld("cell", 3 if ft == "vector" else 0), lines=[L[n] for n in ns])
                ok = ("nearest",) if ik else ("trilin", "linear", "trilinear")
                if not log or any(x not in ok for x in log):
                    return "values are interpolated with kind %s" % log
                return arrays(r if isinstance(r, A) else arr([P.of(x) for x in r]), arr([total(n, kind) for n in ns]))
            vn.defer("line", "%s %s %s" % (e.replace("viscid.", ""), ft, ns), M + ".integrate_along_lines", go)

    def proj(ik):
        def go():
            r, log = probe("viscid.project_along_line(lines[0], f%s).data" % (", interp_kind='nearest'" if ik else ""),
                           fld("cell"), lines=[L[5]])
            if not log or any(x not in (("nearest",) if ik else ("trilin", "linear", "trilinear")) for x in log):
                return "values are interpolated with kind %s" % log
            p = pts(5)
            got = [P.of(x) for x in r.a.reshape(-1)]
            if len(got) != 5:
                return "%d values for 5 points" % len(got)
            for i in range(1, 4):
                t = [b - a for a, b in zip(p[i - 1], p[i + 1])]
                m = differ(got[i], sum((F("xyz"[c], p[i]) * t[c] for c in range(3)), P.of(0)) / norm(t), "point %d: " % i)
                if m:
                    return m
            return None
        return go
    for ik in (False, True):
        vn.defer("line", "project_along_line%s" % (" nearest" if ik else ""), M + ".project_along_line", proj(ik))


def fluxfn(vn, probe, fld):
    for axes, comps in (("xy", (0, 1)), ("yz", (1, 2)), ("xz", (0, 2))):
        for center in ("cell", "node"):
            for lay in ("flat", "interlaced"):
                for rev in (False, True):
                    ns = (4, 5)
                    a = fld(center, 3, lay, ns)

                    def go(a=a, axes=axes, comps=comps, center=center, lay=lay, rev=rev, ns=ns):
                        r, _ = probe("(lambda r: [r.data, r.center, r.get_crds_nc()])(viscid.calc_psi(f, rev=%s))" % rev,
                                     a, center, ns=ns, axes=axes)
                        return psi(r, a, axes, comps, center, lay, rev, ns)
                    vn.defer("flux", "calc_psi/%s %s %s rev=%s" % (axes, center, lay, rev),
                             "viscid.calculator.plasma.calc_psi", go)
    for lay in ("flat", "interlaced"):
        for center, thin in (("node", 2), ("node", 0), ("cell", 1)):
            ns = [4, 5, 6]
            ns[thin] = 2
            ns = tuple(ns)
            axes = "xyz"[:thin] + "xyz"[thin + 1:]
            comps = tuple(i for i in range(3) if i != thin)
            a = fld(center, 3, lay, ns)

            def go3(a=a, axes=axes, comps=comps, center=center, lay=lay, ns=ns, thin=thin):
                r, _ = probe("(lambda r: [r.data, r.center, r.get_crds_nc()])(viscid.calc_psi(f).slice_reduce(':'))",
                             a, center, ns=ns)
                sub = a[0].a.take(0, axis=thin + (1 if lay == "flat" else 0))
                b = (A(sub),) + a[1:]
                return psi(r, b, axes, comps, center, lay, False, tuple(m for i, m in enumerate(ns) if i != thin))
            vn.defer("flux", "calc_psi/3D thin %s %s %s" % ("xyz"[thin], center, lay), "viscid.calculator.plasma.calc_psi", go3)
    for lay in ("flat", "interlaced"):
        for scale in (False, True):
            for ne in (True, False):
                def beta(lay=lay, scale=scale, ne=ne):
                    s = (3, 2, 4)
                    p = symarr("p", s)
                    it_over = {"viscid.calculator.plasma._HAS_NUMEXPR": ne}
                    v = vn.interp(dict(HOOKS), it_over)
                    src = '''
def probe(cc, dp, db, sc):
    crds = viscid.wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    p = viscid.wrap_field(dp, crds, name="pp", center="cell")
    b = viscid.wrap_field(db, crds, name="b", center="cell", fldtype="vector", layout="%s")
    r = viscid.calc_beta(p, b%s)
    return r.data, r.center
''' % (lay, ", scale=sc" if scale else "")
                    b = symarr("b", (3,) + s if lay == "flat" else s + (3,))
                    r, c = v.probe(M, src, [crds((4, 3, 5)), p, b, var("sc")])
                    vn.reached |= v.calls
                    want = [(2 * (var("sc") if scale else P.of(1)) * P.of(p.a[i]) / sum(
                        (P.of(b.a[(k,) + i] if lay == "flat" else b.a[i + (k,)]) ** 2 for k in range(3)), P.of(0)))
                        for i in itertools.product(range(3), range(2), range(4))]
                    return arrays(r, arr(want).reshape(s) if hasattr(A, "reshape") else A(arr(want).a.reshape(s)))
                vn.defer("flux", "calc_beta/%s scale=%s numexpr=%s" % (lay, scale, ne), "viscid.calculator.plasma.calc_beta", beta)


def psi(r, a, axes, comps, center, lay, rev, ns):
    data, cen, nc = r
    xs = [[P.of(v) for v in symarr(x, (m,)).a] for x, m in zip(axes, ns)]
    for g, w in zip(nc, xs):
        m = differ(g, arr(w), "coordinates: ")
        if m:
            return m
    if str(cen).lower() != center:
        return "the result is %s centered" % cen
    if center == "cell":
        xs = [[(u + w) / 2 for u, w in zip(c, c[1:])] for c in xs]
    n = tuple(len(c) for c in xs)
    if data.dims != n:
        return "values have shape %s instead of %s" % (data.dims, n)

    def v(k, i, j):
        c = comps[k]
        return P.of(a[0].a[c, i, j] if lay == "flat" else a[0].a[i, j, c])

    def d0(i, i2, j):                       # along the first axis
        return (xs[0][i2] - xs[0][i]) * (v(1, i, j) + v(1, i2, j)) / 2

    def d1(i, j, j2):
        return -(xs[1][j2] - xs[1][j]) * (v(0, i, j) + v(0, i, j2)) / 2
    i0, j0 = (n[0] - 1, n[1] - 1) if rev else (0, 0)
    st = -1 if rev else 1
    m = differ(data.a[i0, j0], P.of(0), "start corner: ")
    if m:
        return m
    for i in range(n[0]):
        for j in range(n[1]):
            w = P.of(0)
            for k in range(i0, i, st):
                w = w + d0(k, k + st, j0)
            for k in range(j0, j, st):
                w = w + d1(i, k, k + st)
            m = differ(data.a[i, j], w, "at %s: " % ((i, j),))
            if m:
                return m
    return None
