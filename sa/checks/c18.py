"""Value numbering of the dipole tools (viscid/dipole.py): fields, masks and maps on symbolic
moments, points, coordinates and values, compared with the formula of an ideal dipole."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, var, fn, pi
from ..interp import A, Obj, Native, symarr, arr, Unsupp
from ..vn import VN, differ
from .c14 import HOOKS, crds
from .c15 import interp_hook, F

M = "viscid.dipole"
MV = [var("mx"), var("my"), var("mz")]
ST = var("strength")

SRC = '''
def probe(cc, d, more):
    crds = viscid.wrap_crds(%(crd)r, [(a, c) for a, c in zip(%(axes)r, cc)]%(units)s)
    f = viscid.wrap_field(d[0], crds, name="A", center=%(center)r, fldtype=d[1], layout=d[2], time=2.0)
    %(pre)s
    return %(expr)s
'''


def rsq(p):
    return sum((P.of(c) * c for c in p), P.of(0))


def norm(v):
    return alg.sqrt(rsq(v))


def dip(p, m):
    """(3 r (m.r) / r^2 - m) / r^3"""
    r2 = rsq(p)
    md = sum((a * b for a, b in zip(m, p)), P.of(0))
    return [(3 * p[i] * md / r2 - m[i]) / (r2 * alg.sqrt(r2)) for i in range(3)]


def moment(m, strength):
    if not strength:
        return m
    return [ST / norm(m) * c for c in m]


def mids(x):
    return [(u + v) / 2 for u, v in zip(x, x[1:])] if len(x) > 1 else x


def shape(center, n):
    return tuple(n) if center == "node" else tuple(max(m - 1, 1) for m in n)


def at(center, c, cc):
    """coordinate arrays of the points of component c"""
    out = []
    for ax, x in enumerate(cc):
        x = [P.of(v) for v in x.a]
        node = center == "node" or center == "face" and ax == c or center == "edge" and ax != c
        out.append((x if center == "node" else x[:max(len(x) - 1, 1)]) if node else mids(x))
    return out


def vec(name, center, lay, n):
    s = shape(center, n)
    return symarr(name, (3,) + s if lay == "flat" else s + (3,))


def el(a, lay, c, i):
    return a.a[(c,) + tuple(i)] if lay == "flat" else a.a[tuple(i) + (c,)]


def tf(x):
    return alg.phi(x, P.of(1), P.of(0)) if not isinstance(x, (bool, P, int)) else P.of(int(x)) if isinstance(x, bool) else P.of(x)


def cotr(tag):
    """a transformation between systems as an uninterpreted function of both systems and the point"""
    def transform(it, a, k):
        kw = dict(zip(("from_system", "to_system", "vec"), a))
        kw.update(k)
        s, d, v = kw["from_system"], kw["to_system"], kw["vec"]
        if not isinstance(s, str) or not isinstance(d, str):
            raise Unsupp("names of the systems")
        if not isinstance(v, A) or v.dims[0] != 3 or len(v.dims) != 2:
            raise Unsupp("points to transform")
        cols = [T(s, d, [P.of(v.a[e, i]) for e in range(3)], tag) for i in range(v.dims[1])]
        return arr([[c[k] for c in cols] for k in range(3)])
    return Obj(None, {"transform": Native(transform, "transform")})


def as_cotr(it, a, k):
    x = a[0] if a else k.get("thing")
    return x if isinstance(x, Obj) else cotr("G" if x == "given" else "T")


TH = {"viscid.cotr.as_cotr": as_cotr}


def T(s, d, p, tag="T"):
    if s == d:
        return p
    return [fn("%s%d_%s_%s" % (tag, c, s, d), tuple(p)) for c in range(3)]


def run(ctx):
    ctx.rule("dipole", "dipole values are (3 r (m.r) / r^2 - m) / r^3 at their own point")
    ctx.rule("region", "masks select by distance, and only what they select is set")
    ctx.rule("map", "mapping keeps longitude, hemisphere and L shell, in the sm system")
    vn = VN(ctx, 8000000)

    def probe(expr, cc, d, more=None, center="cell", pre="pass", hooks=None, over=None, crd="nonuniform_cartesian",
              axes="xyz", units=""):
        h = dict(HOOKS)
        h.update(hooks or {})
        it = vn.interp(h, over)
        r = it.probe(M, SRC % dict(expr=expr, center=center, pre=pre, crd=crd, axes=list(axes), units=units), [cc, d, more])
        vn.reached |= it.calls
        return r

    fill(vn, probe)
    made(vn, probe)
    points(vn)
    region(vn, probe)
    maps(vn)
    values(vn, probe)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 10, "interpreted functions")


def ne_over(ne):
    return {"viscid.dipole._HAS_NUMEXPR": ne}


def moment_hooks(log):
    """a moment given as a time"""
    def get(it, a, k):
        log.append((a[0] if a else k.get("notional_time"), k.get("crd_system", a[1] if len(a) > 1 else None)))
        return arr(MV)
    return {"viscid.npdatetime.is_datetime_like": lambda it, a, k: isinstance(a[0], str),
            "viscid.cotr.get_dipole_moment": get}


def fill(vn, probe):
    n = (3, 2, 4)
    msk = [(i + 2 * j + k) % 3 != 1 for i in range(3) for j in range(3) for k in range(4)]
    for center, lay, ne in itertools.product(("node", "cell", "edge", "face"), ("flat", "interlaced"), (True, False)):
        for opt in ("", "strength", "mask", "vector mask", "time"):
            def go(center=center, lay=lay, ne=ne, opt=opt):
                cc = crds(n)
                s = shape(center, n)
                a = vec("b", center, lay, n)
                ks = ["m=more[0]"] if opt != "time" else ["m='2010-01-01'"]
                log = []
                if opt == "strength":
                    ks.append("strength=more[1]")
                mask = None
                if "mask" in opt:
                    ks.append("mask=more[2]")
                    vm = opt == "vector mask"
                    shp = a.dims if vm else s
                    mask = A(arr(list(itertools.islice(itertools.cycle(msk), _size(shp)))).a.reshape(shp))
                pre = "before = [f.center, f.layout]"
                expr = "(lambda r: [r.data, r is f, before == [f.center, f.layout], r.get_crds_nc()])(fill_dipole(f, %s))" % ", ".join(ks)
                got, same, kept, nc = probe(expr, cc, (a, "vector", lay), [arr(MV), ST, mask], center, pre,
                                            moment_hooks(log), ne_over(ne))
                if same is not True or kept is not True:
                    return "the given field is not what is filled and returned"
                if opt == "time" and not log:
                    return "the moment of the time was not looked up"
                if got.dims != a.dims:
                    return "values have shape %s" % (got.dims,)
                for x, w in zip(nc, cc):
                    m = differ(x, w, "coordinates: ")
                    if m:
                        return m
                m = moment(MV, opt == "strength")
                b = vec("b", center, lay, n)
                for c in range(3):
                    xs = at(center, c, cc)
                    for i in itertools.product(*map(range, s)):
                        w = dip([xs[d][i[d]] for d in range(3)], m)[c]
                        if mask is not None:
                            sel = el(mask, lay, c, i) if vm else mask.a[i]
                            w = w if sel is True or sel == 1 else P.of(el(b, lay, c, i))
                        q = differ(el(got, lay, c, i), w, "component %d at %s: " % (c, i))
                        if q:
                            return q
                return None
            vn.defer("dipole", "fill_dipole/%s %s %s%s" % (center, lay, "numexpr" if ne else "numpy", opt and " " + opt),
                     M + ".fill_dipole", go)


def _size(s):
    n = 1
    for q in s:
        n *= q
    return n


def made(vn, probe):
    L, H, N = [-2, -3, 1], [4, 5, 3], [2, 3, 1]
    for center, opt in itertools.product(("cell", "node", "Cell"), ("", "strength", "twod", "nonuniform", "mhd")):
        def go(center=center, opt=opt):
            log = []

            def cotr_(it, a, k):
                log.append((a[0], k.get("crd_system", a[1] if len(a) > 1 else None)))
                return "the cotr"
            it = vn.interp(dict(HOOKS, **{"viscid.cotr.dipole_moment2cotr": cotr_}), None)
            ks = {"strength": "strength=s", "twod": "twod=True", "nonuniform": "nonuniform=True", "mhd": "crd_system='mhd'"}.get(opt, "")
            src = '''
def probe(m, s):
    r = make_dipole(m=m, l=%r, h=%r, n=%r, center=%r, name="q"%s)
    comps = r.component_views()
    return [[c.data for c in comps], r.center, r.get_crds_nc(), r.find_info("crd_system"), r.find_info("cotr"), r.name]
''' % (L, H, [q if center.lower() == "cell" else q + 1 for q in N], center, ks and ", " + ks)
            comps, cen, nc, sysm, ct, name = it.probe(M, src, [arr(MV), ST])
            vn.reached |= it.calls
            if str(cen).lower() != center.lower() or name != "q":
                return "the field is %r, %s centered" % (name, cen)
            if sysm != ("mhd" if opt == "mhd" else "gse") or ct != "the cotr":
                return "the coordinate system is %r" % (sysm,)
            m = differ(log[-1][0], arr(MV), "moment of the cotr: ")
            if m or log[-1][1] not in (sysm, "gse" if sysm == "gse" else sysm):
                return m or "the cotr is in %s" % (log[-1][1],)
            xs = []
            for d in range(3):
                k = N[d] + 1
                xs.append([P.of(L[d]) + P.of(H[d] - L[d]) * i / (k - 1) for i in range(k)])
            if opt == "twod":
                xs[1] = [P.of(-1) / 10, P.of(1) / 10]
            if opt == "nonuniform":
                xs[2] = None
            for d in range(3):
                if xs[d] is None:
                    xs[d] = [P.of(v) for v in nc[d].a]
                    continue
                m = differ(nc[d], arr(xs[d]), "nodes along %s: " % "xyz"[d])
                if m:
                    return m
            if center.lower() == "cell":
                xs = [mids(x) for x in xs]
            mm = moment(MV, opt == "strength")
            for c in range(3):
                if comps[c].dims != tuple(len(x) for x in xs):
                    return "values have shape %s" % (comps[c].dims,)
                for i in itertools.product(*[range(len(x)) for x in xs]):
                    m = differ(comps[c].a[i], dip([x[j] for x, j in zip(xs, i)], mm)[c], "component %d at %s: " % (c, i))
                    if m:
                        return m
            return None
        vn.defer("dipole", "make_dipole/%s %s" % (center, opt), M + ".make_dipole", go)


def points(vn):
    for n, ne, opt in itertools.product((0, 1, 2, 3, 4), (True, False), ("", "strength", "time", "list")):
        def go(n=n, ne=ne, opt=opt):
            log = []
            h = dict(HOOKS)
            h.update(moment_hooks(log))
            it = vn.interp(h, ne_over(ne))
            a = symarr("p", (n, 3) if n else (3,))
            arg = [list(r) for r in a.a] if opt == "list" and n else list(a.a) if opt == "list" else a
            ks = "m='2010-01-01', crd_system='gsm'" if opt == "time" else "m=m"
            if opt == "strength":
                ks += ", strength=s"
            r = it.probe(M, "def probe(p, m, s):\n    return calc_dip(p, %s), p" % ks, [arg, arr(MV), ST])
            vn.reached |= it.calls
            if opt == "time" and (not log or log[-1][1] != "gsm"):
                return "the moment is looked up in the system %s" % (log and log[-1][1])
            rows = [[P.of(v) for v in q] for q in a.a.reshape(-1, 3)]
            want = [dip(q, moment(MV, opt == "strength")) for q in rows]
            b = symarr("p", (n, 3) if n else (3,))
            return differ(r[0], arr(want if n else want[0]), "") or (differ(r[1], b, "points changed: ") if opt != "list" else None)
        vn.defer("dipole", "calc_dip/%d %s %s" % (n, "numexpr" if ne else "numpy", opt), M + ".calc_dip", go)
    for ne in (True, False):
        def ints(ne=ne):
            it = vn.interp(dict(HOOKS), ne_over(ne))
            r = it.probe(M, "def probe():\n    return calc_dip([[2, 0, 0], [0, 0, 3]], m=[1, 0, -3])", [])
            vn.reached |= it.calls
            q = [P.of(1), P.of(0), P.of(-3)]
            return differ(r, arr([dip([P.of(2), P.of(0), P.of(0)], q), dip([P.of(0), P.of(0), P.of(3)], q)]), "")
        vn.defer("dipole", "calc_dip/integers %s" % ("numexpr" if ne else "numpy"), M + ".calc_dip", ints)


def region(vn, probe):
    r0, r1 = var("rmin"), var("rmax")
    for n in ((3, 2, 4), (1, 3, 2), (3, 1, 1)):
        for center, nr in itertools.product(("node", "cell", "edge", "face"), (0, 3)):
            if center in ("edge", "face") and (not nr or 1 in n):
                continue
            for lay in ("flat", "interlaced") if nr else ("flat",):
                for ks in ("rmin=more[0], rmax=more[1]", "rmax=more[1]"):
                    def go(n=n, center=center, nr=nr, lay=lay, ks=ks):
                        cc = crds(n)
                        s = shape(center, n)
                        a = vec("b", center, lay, n) if nr else symarr("b", s)
                        got, cen, nc = probe("(lambda r: [r.data, r.center, r.get_crds_nc()])(make_spherical_mask(f, %s))" % ks, cc,
                                             (a, "vector" if nr else "scalar", lay), [r0, r1], center)
                        if str(cen).lower() != center:
                            return "the mask is %s centered" % cen
                        for x, w in zip(nc, cc):
                            m = differ(x, w, "coordinates: ")
                            if m:
                                return m
                        full = center in ("edge", "face")
                        if got.dims != (a.dims if full else s):
                            return "the mask has shape %s" % (got.dims,)
                        lo = r0 if "rmin" in ks else P.of(0)
                        for c in range(3 if full else 1):
                            xs = at(center, c, cc)
                            for i in itertools.product(*map(range, s)):
                                r2 = rsq([xs[d][i[d]] for d in range(3)])
                                w = alg.band(alg.le(lo * lo, r2), alg.lt(r2, r1 * r1))
                                g = el(got, lay, c, i) if full else got.a[i]
                                m = differ(tf(g), tf(w), "at %s: " % (i,))
                                if m:
                                    return m
                        return None
                    vn.defer("region", "make_spherical_mask/%s %s %s %s %s" % (n, center, nr and lay, nr, ks), M + ".make_spherical_mask", go)
    for rng, want in (("rmin=2.0", lambda q: q >= 4), ("", lambda q: True), ("rmin=1, rmax=3", lambda q: 1 <= q < 9)):
        def num(rng=rng, want=want):
            cc = [arr([P.of(v) for v in x]) for x in ((-2, 0, 3), (0, 1, 2), (0, 2))]
            r = probe("make_spherical_mask(f%s).data" % (rng and ", " + rng), cc, (symarr("b", (3, 3, 2)), "scalar", "flat"), None, "node")
            w = [want(x * x + y * y + z * z) for x in (-2, 0, 3) for y in (0, 1, 2) for z in (0, 2)]
            g = [q if isinstance(q, bool) else q == 1 if isinstance(q, P) else q for q in r.a.reshape(-1)]
            return None if g == w else "is %s instead of %s" % (g, w)
        vn.defer("region", "make_spherical_mask/numbers %s" % rng, M + ".make_spherical_mask", num)
    al, be = var("alpha"), var("beta")
    for dims in ((2, 3, 4), (3, 3, 3)):
        for nr, lay, ne, opt in itertools.product((0, 3), ("flat", "interlaced"), (True, False), ("", "mask", "array mask", "vector mask", "own")):
            if not nr and (lay == "interlaced" or opt == "vector mask") or lay == "interlaced" and dims == (3, 3, 3):
                continue

            def go(nr=nr, lay=lay, ne=ne, opt=opt, dims=dims):
                n = dims
                s = dims
                cc = crds(n)
                mk = (lambda nm: symarr(nm, (3,) + s if lay == "flat" else s + (3,))) if nr else (lambda nm: symarr(nm, s))
                a, b, o = mk("a"), mk("b"), mk("o")
                typ = "vector" if nr else "scalar"
                pre = ("g = viscid.wrap_field(more[0], crds, name='B', center='node', fldtype=%r, layout=%r); "
                       "h = viscid.wrap_field(more[1], crds, name='C', center='node', fldtype=%r, layout=%r); out = %s; mask = %s" % (
                           typ, lay, typ, lay, "f" if opt == "own" else "h",
                           "None" if not opt else "more[4]" if "array" in opt else
                           "viscid.wrap_field(more[4], crds, name='M', center='node', fldtype=%s, layout=%r)" % (
                               ("'vector'", lay) if "vector" in opt else ("'scalar'", "flat"))))
                shp = a.dims if "vector" in opt else s
                msk = A(arr([q % 3 == 1 for q in range(_size(shp))]).a.reshape(shp))
                expr = "(lambda r: [r is out, r.data, g.data, f.data])(set_in_region(f, g, alpha=more[2], beta=more[3], mask=mask, out=out))"
                same, got, gb, ga = probe(expr, cc, (a, typ, lay), [b, o, al, be, msk], "node", pre, None, ne_over(ne))
                if same is not True:
                    return "out is not what is returned"
                a, b, o = mk("a"), mk("b"), mk("o")
                m = differ(gb, b, "b changed: ") or (None if opt == "own" else differ(ga, a, "a changed: "))
                if m:
                    return m
                base = a if opt == "own" else o
                for i in itertools.product(*map(range, a.dims)):
                    j = i if not nr or "vector" in opt else i[1:] if lay == "flat" else i[:3]
                    w = al * P.of(a.a[i]) + be * P.of(b.a[i]) if not opt or msk.a[j] in (True, 1) else P.of(base.a[i])
                    m = differ(got.a[i], w, "at %s: " % (i,))
                    if m:
                        return m
                return None
            vn.defer("region", "set_in_region/%s %s %s %s %s" % (dims, nr, lay, "numexpr" if ne else "numpy", opt), M + ".set_in_region", go)


def sph(p):
    r = norm(p)
    return r, fn("arccos", (p[2] / r,)), fn("arctan2", (p[1], p[0]))


def mapped(q, rad, crd, spherical, tag="T"):
    p = T(crd, "sm", q, tag)
    r, th, ph = sph(p)
    lam = pi / 2 - th
    L = r / (fn("cos", (lam,)) ** 2)
    ml = fn("sign", (lam,)) * fn("arccos", (alg.sqrt(rad / L),))
    th2 = pi / 2 - ml
    if spherical:
        d = ph * 180 / pi
        return [rad, th2 * 180 / pi, d - 360 * fn("floor", (d / 360,))]
    s = fn("sin", (th2,))
    return T("sm", crd, [rad * s * fn("cos", (ph,)), rad * s * fn("sin", (ph,)), rad * fn("cos", (th2,))], tag)


def maps(vn):
    for n, crd, tag in itertools.product((0, 1, 2, 3), ("gse", "sm", "mhd"), "TG"):
        own = ", cotr='given'" if tag == "G" else ""
        pts = lambda n=n: symarr("p", (3, n) if n else (3,))
        rows = [[P.of(v) for v in q] for q in pts().a.reshape(3, -1).T]

        def lsr(n=n, crd=crd, pts=pts, rows=rows, own=own, tag=tag):
            it = vn.interp(dict(HOOKS, **TH), None)
            r = it.probe(M, "def probe(p):\n    return xyz2lsrlp(p%s)" % (own + (", crd_system=%r" % crd if crd != "gse" else "")), [pts()])
            vn.reached |= it.calls
            want = []
            for q in rows:
                rr, th, ph = sph(T(crd, "sm", q, tag))
                lam = pi / 2 - th
                want.append([rr / fn("cos", (lam,)) ** 2, rr, lam, ph])
            return differ(r, arr([[w[k] for w in want] for k in range(4)]), "")
        vn.defer("map", "xyz2lsrlp/%d %s%s" % (n, crd, own), M + ".xyz2lsrlp", lsr)
        for rad, sp in itertools.product((None, "r"), (False, True)):
            def dm(n=n, crd=crd, pts=pts, rows=rows, rad=rad, sp=sp, own=own, tag=tag):
                it = vn.interp(dict(HOOKS, **TH), None)
                ks = own + (", crd_system=%r" % crd if crd != "gse" else "") + (", r=r" if rad else "") + (", as_spherical=True" if sp else "")
                r = it.probe(M, "def probe(p, r):\n    return dipole_map(p%s), p" % ks, [pts(), var("R")])
                vn.reached |= it.calls
                want = [mapped(q, var("R") if rad else P.of(1), crd, sp, tag) for q in rows]
                return differ(r[0], arr([[w[k] for w in want] for k in range(3)]), "") or differ(r[1], pts(), "points changed: ")
            vn.defer("map", "dipole_map/%d %s%s r=%s%s" % (n, crd, own, rad, " spherical" if sp else ""), M + ".dipole_map", dm)


def values(vn, probe):
    """values at the mapped points, as an uninterpreted function of the point"""
    for crd, rad, own in itertools.product(("sm", "gse"), (None, "R"), (True, False)):
        def go(crd=crd, rad=rad, own=own):
            log = []
            h = interp_hook(log)
            hk = dict(TH, **{"viscid.cython.cycalc.interp": h})
            pts = symarr("p", (3, 2))
            ks = ", r=more[1]" if rad else ""
            pre = "f.set_info('crd_system', %r)" % crd if own else "pass"
            ks += "" if own else ", crd_system=%r" % crd
            r = probe("dipole_map_value(f, more[0]%s, interp_kind='nearest')" % ks, crds((3, 3, 3)), (symarr("b", (3, 3, 3)), "scalar", "flat"),
                      [pts, var("R")], "node", pre, hk)
            if log != ["nearest"]:
                return "interpolated by %s" % log
            want = [F("", mapped([P.of(v) for v in pts.a[:, i]], var("R") if rad else P.of(1), crd, False)) for i in range(2)]
            return differ(r, arr(want), "")
        vn.defer("map", "dipole_map_value/cartesian %s %s %s" % (crd, rad, own), M + ".dipole_map_value", go)
    for axes, unit in itertools.product((("phi", "theta"), ("theta", "phi"), ("lon", "lat")), ("deg", "rad")):
        def sp(axes=axes, unit=unit):
            seen = []
            inner = interp_hook([])

            def h(it, a, k):
                f = a[0] if a else k["vfield"]
                seen.append([it.getattr(f, "data"), it.call(it.getattr(f, "get_crds"), [], {}), it.getattr(it.getattr(f, "crds"), "axes")])
                return inner(it, a, k)
            hk = dict(TH, **{"viscid.cython.cycalc.interp": h})
            pts = symarr("p", (3, 2))
            n = (3, 4)
            cc = [symarr(x, (m,)) for x, m in zip(axes, n)]
            d = symarr("b", n)
            r = probe("dipole_map_value(f, more[0], r=more[1], crd_system='sm')", cc, (d, "scalar", "flat"),
                      [pts, var("R")], "node", "pass", hk, None, "nonuniform_spherical", axes, ", units=(%r, %r)" % (unit, unit))
            want = [F("", mapped([P.of(v) for v in pts.a[:, i]], var("R"), "sm", True)) for i in range(2)]
            m = differ(r, arr(want), "")
            if m:
                return m
            data, cr, ax = seen[-1]
            if tuple(ax) != ("r", "theta", "phi"):
                return "interpolates on axes %s" % (ax,)
            k = 180 / pi if unit == "rad" else P.of(1)
            src = dict(zip(axes, [[P.of(v) * k for v in c.a] for c in cc]))
            th = src["theta"] if "theta" in src else [90 - v for v in src["lat"]][::-1]
            ph = src["phi"] if "phi" in src else [v for v in src["lon"]]
            m = differ(cr[1], arr(th), "theta: ") or differ(cr[2], arr(ph), "phi: ")
            if m:
                return m
            for i, j in itertools.product(range(len(th)), range(len(ph))):
                ti = i if "theta" in src else len(th) - 1 - i
                w = d.a[ti, j] if axes[0] == "theta" else d.a[j, ti]
                m = differ(data.a[0, i, j], P.of(w), "value at %s: " % ((i, j),))
                if m:
                    return m
            return None
        vn.defer("map", "dipole_map_value/%s %s" % (",".join(axes), unit), M + ".dipole_map_value", sp)
