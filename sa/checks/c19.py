"""Value numbering of the spherical conversions (viscid/mapfield.py): angles, units, orders of axes,
centerings and the single point forms are interpreted on symbols and compared with their definitions."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, var, fn
from ..interp import A, Obj, symarr, arr, Unsupp, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS
from .c16 import sin, cos

M = "viscid.mapfield"
pi = alg.pi


def col(*xs):
    return arr(list(xs))


def run(ctx):
    ctx.rule("point", "cartesian, spherical and latitude / longitude forms of a point are the defined functions of each other")
    ctx.rule("degrees", "angles are degrees or radians as asked for")
    ctx.rule("map", "a field converted to other angular coordinates keeps the value at every point of the sphere")
    vn = VN(ctx, 6000000)

    def probe(expr, args, names, order=None):
        it = vn.interp(dict(HOOKS), None)
        if order:
            it.decider = order
        r = it.probe(M, "def probe(%s):\n    return %s" % (", ".join(names), expr), args)
        vn.reached |= it.calls
        return r

    def eq(rule, name, fnm, expr, a, want, order=None, same=True):
        def go():
            r = probe("[%s, a]" % expr, [a() if callable(a) else a], ["a"], order)
            before = a() if callable(a) else a
            return differ(r[0], want, "") or (differ(r[1], before, "the argument changed: ") if same and isinstance(before, A) else None)
        vn.defer(rule, name, M + "." + fnm, go)

    pts(eq)
    circle(vn, probe)
    axis_maps(eq)
    fields(vn, ctx)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 10, "interpreted functions")


def rad(x, deg):
    return x * pi / 180 if deg else x


def undo(x, deg):
    return x * 180 / pi if deg else x


def pts(eq):
    for n in (0, 1, 2, 3, 4):
        mk = (lambda n=n: symarr("a", (3, n) if n else (3,)))
        mk2 = (lambda n=n: symarr("a", (2, n) if n else (2,)))
        a, b = mk().a.reshape(3, -1), mk2().a.reshape(2, -1)
        m = n or 1

        def shaped(rows, n=n):
            return arr([r[0] for r in rows]) if n == 0 else arr([list(r) for r in rows])

        for deg in (False, True, None):
            opt = "" if deg is None else ", deg=%s" % deg
            d = bool(deg)
            x, y, z = [[P.of(v) for v in a[i]] for i in range(3)]
            r = [alg.sqrt(x[i] * x[i] + y[i] * y[i] + z[i] * z[i]) for i in range(m)]
            th = [fn("arccos", (z[i] / r[i],)) for i in range(m)]
            ph = [fn("arctan2", (y[i], x[i])) for i in range(m)]
            rule = "point" if deg is None else "degrees"
            eq(rule, "cart2sph/%d%s" % (n, opt), "cart2sph", "cart2sph(a%s)" % opt, mk,
               shaped([r, [undo(t, d) for t in th], [undo(t, d) for t in ph]]))
            R, T, F = x, y, z
            eq(rule, "sph2cart/%d%s" % (n, opt), "sph2cart", "sph2cart(a%s)" % opt, mk,
               shaped([[R[i] * sin(rad(T[i], d)) * cos(rad(F[i], d)) for i in range(m)],
                       [R[i] * sin(rad(T[i], d)) * sin(rad(F[i], d)) for i in range(m)],
                       [R[i] * cos(rad(T[i], d)) for i in range(m)]]))
            d2 = deg is None or deg
            half = P.of(180) if d2 else pi
            eq(rule, "cart2latlon/%d%s" % (n, opt), "cart2latlon", "cart2latlon(a%s)" % opt, mk,
               shaped([[half / 2 - undo(t, d2) for t in th], [undo(t, d2) - half for t in ph]]))
            la, lo = [[P.of(v) for v in b[i]] for i in range(2)]
            for rr in (None, "2.0"):
                q = P.of(2) if rr else P.of(1)
                ll = [(rad(half / 2 - la[i], d2), rad(lo[i] + half, d2)) for i in range(m)]
                o2 = opt + (", r=" + rr if rr else "")
                eq(rule, "latlon2cart/%d%s" % (n, o2), "latlon2cart", "latlon2cart(a%s)" % o2, mk2,
                   shaped([[q * sin(t) * cos(p) for t, p in ll], [q * sin(t) * sin(p) for t, p in ll], [q * cos(t) for t, p in ll]]))
    # integer points
    for call, want in (("cart2sph([0, 0, 2])[0]", P.of(2)), ("cart2sph([3, 4, 0])[1]", pi / 2), ("cart2sph([[0], [2], [0]])[2][0]", pi / 2),
                       ("cart2latlon([0, 0, 3])[0]", P.of(90)), ("sph2cart([2, 0, 0])[2]", P.of(2)),
                       ("sph2cart([1, 90, 30], deg=True)[1]", P.of(1) / 2), ("latlon2cart([90, 0])[2]", P.of(1)),
                       ("latlon2cart([0, 30])[1]", -P.of(1) / 2)):
        eq("point", "integers/" + call, call.split("(")[0], call, [], want)


def circle(vn, probe):
    """start and end of a great circle, and the radius of the points of it"""
    for tag, p1, p2, org in (("axes", [1, 0, 0], [0, 1, 0], None), ("axes", [0, 0, 2], [0, 3, 0], None),
                             ("shifted", [2, 1, 0], [1, 1, 1], [1, 1, 0]), ("opposite", [1, 0, 0], [-1, 0, 0], None),
                             ("radii", [0, 0, 1], [2, 0, 0], None), ("opposite poles", [0, 0, 1], [0, 0, -1], None),
                             ("opposite", [0, 3, 4], [0, -3, -4], None), ("opposite", [4, 3, 0], [-4, -3, 0], None),
                             ("same direction", [0, 3, 4], [0, 6, 8], None), ("opposite", [2, 3, 5], [2, -3, -3], [2, 0, 1])):
        for n in (2, 3, 5):
            def go(p1=p1, p2=p2, org=org, n=n):
                r = probe("great_circle(%r, %r%s, n=%d)" % (p1, p2, ", origin=%r" % org if org else "", n), [], [])
                if not isinstance(r, A) or r.dims != (3, n):
                    return "the result has shape %s instead of %s" % (getattr(r, "dims", "?"), (3, n))
                o = org or [0, 0, 0]

                def rr(p):
                    return alg.sqrt(sum((P.of(u - v) ** 2 for u, v in zip(p, o)), P.of(0)))
                for k, p in ((0, p1), (n - 1, p2)):
                    m = differ(arr([r.a[c, k] for c in range(3)]), arr([P.of(v) for v in p]), "end %d: " % k)
                    if m:
                        return m
                for k in range(n):
                    d = sum(((P.of(r.a[c, k]) - o[c]) ** 2 for c in range(3)), P.of(0))
                    w = rr(p1) + (rr(p2) - rr(p1)) * k / (n - 1)
                    m = differ(d, w * w, "squared radius of point %d: " % k)
                    if m:
                        return m
                return None
            vn.defer("point", "great_circle/%s %s %s n=%d" % (tag, p1, p2, n), M + ".great_circle", go)


def axis_maps(eq):
    for u, q in (("deg", P.of(90)), ("rad", pi / 2)):
        mk = lambda: symarr("t", (3,))
        t = [P.of(v) for v in mk().a]
        order = Order(*[{t[k].key: (0.3 + 0.4 * k + j) * (57 if u == "deg" else 1) for k in range(3)} for j in (0.0, 0.1)])
        for f in ("theta2lat", "lat2theta"):
            e = dict(order.envs[0])
            eq("degrees", "%s/%s" % (f, u), f, "%s(a, unit=%r)" % (f, u), mk, arr([q - v for v in t]), order)
        for f in ("phi2lon", "lon2phi"):
            eq("degrees", "%s/%s" % (f, u), f, "%s(a, unit=%r)" % (f, u), mk, arr(t), order)
    # points of polar plots
    for ax in (("phi", "theta"), ("theta", "phi"), ("lon", "lat"), ("lat", "lon"), ("phi", "lat"), ("theta", "lon")):
        for u in ("deg", "rad"):
            for hem in ("north", "South ", "n"):
                for n in (2, 3):
                    mk = lambda n=n: symarr("p", (2, n))
                    a = mk().a
                    rows = {}
                    for k, nm in enumerate(ax):
                        v = [P.of(w) * pi / 180 if u == "deg" else P.of(w) for w in a[k]]
                        if nm == "theta":
                            rows["lat"] = [pi / 2 - w for w in v]
                        else:
                            rows["lat" if nm == "lat" else "lon"] = v
                    s = 1 if hem == "South " else -1
                    lat = [s * w + pi / 2 for w in rows["lat"]]
                    envs = [{P.of(w).key: (0.4 + 0.1 * i + j) * (57 if u == "deg" else 1) for i, w in enumerate(a.reshape(-1))}
                            for j in (0.0, 0.05)]
                    eq("map", "pts2polar_mapfield/%s %s %s %d" % (ax, u, hem, n), "pts2polar_mapfield",
                       "pts2polar_mapfield(a, %r, pts_unit=%r, hemisphere=%r)" % (ax, u, hem), mk,
                       arr([rows["lon"], lat]), Order(*envs))
    eq("point", "integers/pts2polar_mapfield", "pts2polar_mapfield",
       "pts2polar_mapfield(np.array([[0, 90], [30, 60]]), ('phi', 'theta'))", [], arr([[P.of(0), pi / 2], [pi / 6, pi / 3]]))


SRC = '''
def probe(cc, d):
    crds = wrap_crds(%(kind)r, [(a, c) for a, c in zip(%(axes)r, cc)], units=%(units)r)
    f = viscid.wrap_field(d[0], crds, name="A", center=%(center)r, fldtype=d[1], layout=d[2], time=1.0)
    r = %(expr)s
    return [r.data, r.center, list(r.crds.axes), r.get_crds_nc(), r.get_crds_cc(), [r.crds.get_unit(a) for a in r.crds.axes], f.data]
'''


def fields(vn, ctx):
    """every conversion keeps the value at the same point of the sphere"""
    n = (4, 5)                                   # nodes along phi / lon and theta / lat
    for src_axes, order, expr in (
            (("phi", "theta"), None, "as_mapfield(f)"), (("theta", "phi"), None, "as_mapfield(f)"),
            (("phi", "theta"), ("lat", "lon"), "as_mapfield(f, order=('lat', 'lon'))"),
            (("lon", "lat"), None, "as_mapfield(f)"), (("lat", "lon"), None, "as_mapfield(f)"),
            (("lon", "lat"), None, "as_spherefield(f)"), (("lat", "lon"), None, "as_spherefield(f)"),
            (("lon", "lat"), ("theta", "phi"), "as_spherefield(f, order=('theta', 'phi'))"),
            (("phi", "theta"), None, "as_spherefield(f)"), (("theta", "phi"), None, "as_spherefield(f)"),
            (("phi", "theta"), None, "as_spherefield(as_mapfield(f))"),
            (("lon", "lat"), None, "as_mapfield(as_spherefield(f))")):
        for kind in ("uniform_spherical", "nonuniform_spherical"):
            for center in ("node", "cell"):
                for unit, target in (("deg", ""), ("deg", "rad"), ("rad", "deg"), ("rad", "")):
                    for lay in ("scalar", "flat", "interlaced"):
                        if lay != "scalar" and (unit, target) != ("deg", "rad"):
                            continue
                        e = expr
                        if target:
                            e = expr[:-1] + ", units=%r)" % target
                        outer = expr.split("(")[0]
                        want_axes = order or (("lon", "lat") if outer == "as_mapfield" else ("phi", "theta"))
                        nm = "%s/%s %s %s %s->%s %s" % (expr, ",".join(src_axes), kind, center, unit, target or unit, lay)
                        vn.defer("map", nm, M + "." + outer,
                                 lambda a=(src_axes, want_axes, e, kind, center, unit, target, lay): one(vn, n, *a))
    for src_axes in (("phi", "theta"), ("lat", "lon")):
        for kind in ("uniform_spherical", "nonuniform_spherical"):
            for center in ("node", "cell"):
                for hem in ("north", "south"):
                    for per in (False, True):
                        vn.defer("map", "as_polar_mapfield/%s %s %s %s periodic=%s" % (",".join(src_axes), kind, center, hem, per),
                                 M + ".as_polar_mapfield",
                                 lambda a=(src_axes, kind, center, hem, per): polar(vn, *a))


def setup(vn, n, src_axes, kind, center, unit, lay, expr, wide=False):
    """symbols for the coordinates; a decider with representative values of them"""
    full = 180.0 if unit == "deg" else 3.14159265358979
    ns = [n[0] if a in ("phi", "lon") else n[1] for a in src_axes]
    arrs, nodes, envs = [], [], [{}, {}]
    for a, m in zip(src_axes, ns):
        polar_ = a in ("theta", "lat")
        lo, hi = (0.05, 0.95) if a == "theta" else (-0.45, 0.45) if a == "lat" else (0.1, 1.3)
        if kind.startswith("uniform"):
            L, H = var(a + "_l"), var(a + "_h")
            arrs.append([L, H, m])
            x = [L + (H - L) * k / (m - 1) for k in range(m)]
            for j, e in enumerate(envs):
                e[L.key], e[H.key] = (lo + 0.01 * j) * full, (hi - 0.013 * j) * full
        else:
            s = symarr(a, (m,))
            arrs.append(s)
            x = [P.of(v) for v in s.a]
            for j, e in enumerate(envs):
                for k, v in enumerate(x):
                    e[v.key] = (lo + (hi - lo) * (k / (m - 1)) + 0.01 * j * (1 - 2 * k / (m - 1))) * full
        nodes.append(x)
    dims = tuple(ns if center == "node" else [m - 1 for m in ns])
    if lay == "scalar":
        d = (symarr("f", dims), "scalar", "flat")
    elif lay == "flat":
        d = (symarr("f", (3,) + dims), "vector", "flat")
    else:
        d = (symarr("f", dims + (3,)), "vector", "interlaced")
    it = vn.interp(dict(HOOKS), None)
    it.decider = Order(*envs)
    src = SRC % dict(kind=kind, axes=list(src_axes), units=unit, center=center, expr=expr)
    r = it.probe(M, src, [arrs, d])
    vn.reached |= it.calls
    return r, nodes, d, dims


def turn(x, unit, target):
    if not target or unit == target:
        return x
    return x * pi / 180 if target == "rad" else x * 180 / pi


FAM = {"lon": "phi", "phi": "phi", "lat": "theta", "theta": "theta"}


def convert(a, b, x, unit, target):
    """coordinate x of axis a as coordinate of axis b"""
    x = turn(x, unit, target)
    q = P.of(90) if (target or unit) == "deg" else pi / 2
    return x if a == b or FAM[a] == "phi" else q - x


def one(vn, n, src_axes, want_axes, expr, kind, center, unit, target, lay):
    r, nodes, d, dims = setup(vn, n, src_axes, kind, center, unit, lay, expr)
    data, cen, axes, nc, cc, units, src = r
    m = differ(src, d[0], "the field changed: ")
    if m:
        return m
    if tuple(axes) != tuple(want_axes):
        return "axes %s instead of %s" % (axes, want_axes)
    if str(cen).lower() != center:
        return "the result is %s centered" % cen
    if any(u != (target or unit) for u in units):
        return "units %s instead of %s" % (units, target or unit)
    perm, flips, wn = [], [], []
    for b in want_axes:
        k = [i for i, a in enumerate(src_axes) if FAM[a] == FAM[b]][0]
        a = src_axes[k]
        x = [convert(a, b, v, unit, target) for v in nodes[k]]
        fl = a != b and FAM[a] == "theta"
        # through the other family and back there are two reversals
        if fl:
            x = x[::-1]
        perm.append(k)
        flips.append(fl)
        wn.append(x)
    for b, g, w in zip(want_axes, nc, wn):
        m = differ(g, arr(w), "nodes along %s: " % b)
        if m:
            return m
    wd = tuple(dims[k] for k in perm)
    got = data.a
    if lay == "interlaced":
        got = got.transpose((2, 0, 1)) if got.ndim == 3 else got
    if lay == "scalar":
        got = got.reshape((1,) + got.shape)
    if got.shape[1:] != wd:
        return "values have shape %s instead of %s" % (data.dims, wd)
    for c in range(got.shape[0]):
        for i in itertools.product(*map(range, wd)):
            j = [0, 0]
            for pos, (k, fl) in enumerate(zip(perm, flips)):
                j[k] = dims[k] - 1 - i[pos] if fl else i[pos]
            v = d[0].a[tuple(j)] if lay == "scalar" else d[0].a[(c,) + tuple(j)] if lay == "flat" else d[0].a[tuple(j) + (c,)]
            m = differ(got[(c,) + i], P.of(v), "component %d at %s: " % (c, i))
            if m:
                return m
    return None


def polar(vn, src_axes, kind, center, hem, per):
    bl = 150.0     # wide enough to keep everything of the hemisphere's side
    expr = "as_polar_mapfield(f, bounding_lat=175.0, hemisphere=%r, make_periodic=%r)" % (hem, per)
    n = (4, 5)
    r, nodes, d, dims = setup(vn, n, src_axes, kind, center, "deg", "scalar", expr)
    data, cen, axes, nc, cc, units, src = r
    m = differ(src, d[0], "the field changed: ")
    if m:
        return m
    if tuple(axes) != ("lon", "lat"):
        return "axes %s" % (axes,)
    k0 = [i for i, a in enumerate(src_axes) if FAM[a] == "phi"][0]
    k1 = 1 - k0
    lon = [convert(src_axes[k0], "lon", v, "deg", "rad") for v in nodes[k0]]
    lat = [convert(src_axes[k1], "lat", v, "deg", "rad") for v in nodes[k1]]
    # both ways of ordering the latitudes end at increasing distance from the pole
    s = -1 if hem == "north" else 1
    rad_ = [s * v + pi / 2 for v in lat]
    asc = (src_axes[k1] == "theta") == (hem == "north")      # distance increases with the index
    seq = list(range(len(rad_)))
    if not asc:
        seq = seq[::-1]
    m = differ(nc[1], arr([rad_[k] for k in seq]), "distance from the pole: ")
    if m:
        return m
    wl = list(lon)
    if per:
        if kind.startswith("uniform"):
            wl = wl + [wl[-1] + (wl[1] - wl[0])]
        else:
            wl = wl + [wl[0] + 2 * pi]
    m = differ(nc[0], arr(wl), "longitudes: ")
    if m:
        return m
    nd = (dims[k0] + (1 if per else 0), dims[k1])
    if data.dims != nd:
        return "values have shape %s instead of %s" % (data.dims, nd)
    for i, j in itertools.product(*map(range, nd)):
        jj = j if asc else dims[k1] - 1 - j
        ii = i % dims[k0]
        ix = (ii, jj) if k0 == 0 else (jj, ii)
        m = differ(data.a[i, j], P.of(d[0].a[ix]), "at %s: " % ((i, j),))
        if m:
            return m
    return None
