"""Value numbering of viscid/cotr.py: for every ordered pair of coordinate systems the transform
matrix the code composes is compared, as a canonical expression in the date-dependent
quantities and dipole angles, with the composition of Hapgood's elementary rotations."""
from __future__ import annotations
import numpy as _np
from .. import alg
from ..alg import P, B, var, fn
from ..interp import A, Obj, Ext, Native, Opaque, Fn, symarr, arr, Unsupp, Raised, asint
from ..vn import VN, differ, unit, matmul, matvec, transpose, rows, decide, replace, zero
from .c16 import sin, cos, rodrigues, elem_rot, generic_close, unclip

C = "viscid.cotr."
GEO = ("gei", "geo", "gse", "gsm", "sm", "mag", "mhd")
HEL = ("hae", "hee", "heeq")
# IGRF-12, dipole terms [year, g10, g11, h11]
IGRF = [[1950.0, -30554.00, -2250.00, 5815.00], [1955.0, -30500.00, -2215.00, 5820.00],
        [1960.0, -30421.00, -2169.00, 5791.00], [1965.0, -30334.00, -2119.00, 5776.00],
        [1970.0, -30220.00, -2068.00, 5737.00], [1975.0, -30100.00, -2013.00, 5675.00],
        [1980.0, -29992.00, -1956.00, 5604.00], [1985.0, -29873.00, -1905.00, 5500.00],
        [1990.0, -29775.00, -1848.00, 5406.00], [1995.0, -29692.00, -1784.00, 5306.00],
        [2000.0, -29619.40, -1728.20, 5186.10], [2005.0, -29554.63, -1669.05, 5077.99],
        [2010.0, -29496.57, -1586.42, 4944.26], [2015.0, -29442.00, -1501.00, 4797.10]]
deg = alg.pi / 180
THETA = {}


def frame_rot(ax, th, n=3):
    """Hapgood's <theta, axis>: rotations about x and z are left handed, about y right handed"""
    m = elem_rot(ax, th if ax == "y" else -th)
    if n == 4:
        m = [r + [P.of(0)] for r in m] + [[P.of(0)] * 3 + [P.of(1)]]
    return m


def abstract_angle(th):
    """one symbol per distinct angle (in degrees), odd in its argument"""
    th = P.of(th)
    c = th.const()
    if c is not None and (c / 90).denominator == 1:
        return th * deg
    for t0, v in THETA.items():
        if alg.same(th, t0):
            return v
        if alg.same(th, -t0):
            return -v
    v = var("angle%d" % len(THETA))
    THETA[th] = v
    return v


def h_make_rotation(it, args, kw):
    f = it.proj.func(C + "make_rotation")
    names = [a.arg for a in f.node.args.args]
    vals = dict(zip(names, args))
    vals.update(kw)
    th, ax = vals[names[0]], vals.get(names[1], "z")
    n = asint(vals.get(names[2], 3)) if len(names) > 2 else 3
    if isinstance(ax, str):
        ax = ax.strip().lower()
    ax = {0: "x", 1: "y", 2: "z"}.get(ax if isinstance(ax, str) else asint(ax), ax)
    if ax not in ("x", "y", "z") or n not in (3, 4):
        raise Unsupp("axis")
    return arr(frame_rot(ax, abstract_angle(th), n))


class Stamp(Obj):
    pass


def stamp(tag):
    """an instant; differences are symbolic numbers of seconds"""
    def binop(it, op, a, b):
        if op == "-" and isinstance(a, Obj) and isinstance(b, Obj):
            x, y = a.attrs.get("tag"), b.attrs.get("tag")
            d = "epochsec" if (x, y) == ("time", "epoch") else \
                "daysec" if (x, y) == ("time", "day") else None
            if d:
                return Obj(None, {"tag": d}, model={
                    "total_seconds": Native(lambda it, a, k: var(d)),
                    "astype": Native(lambda it, a, k: None)})
        raise Unsupp("date arithmetic")
    o = Obj(None, {"tag": tag, "dtype": "datetime64"})
    o.model = {"__binop__": binop, "astype": Native(lambda it, a, k, o=o: o)}
    return o


def time_hooks(years=None):
    N = "viscid.npdatetime."
    when = stamp("time")

    def as64(it, a, k):
        x = a[0]
        if isinstance(x, Obj) and x.attrs.get("tag") in ("time", "day", "epoch"):
            return x
        if isinstance(x, str):
            if x.startswith("1858-11-17") and x[10:] in ("", "T00:00:00.0", "T00:00:00", "T00:00", "T00"):
                return stamp("epoch")
            if x.startswith("2004-03-07") and x[10:] in ("", "T00:00:00.0", "T00:00:00", "T00:00", "T00"):
                return stamp("day")
            return when
        if x == 0 or isinstance(x, P):
            return when
        raise Unsupp("date")

    def asdt(it, a, k):
        x = a[0]
        if isinstance(x, Obj) and x.attrs.get("tag") == "time":
            return Obj(None, {"year": P.of(2004), "month": P.of(3), "day": P.of(7)})
        raise Unsupp("date")

    def ident(it, a, k):
        return a[0]

    def interp(it, a, k):
        x, xp, fp = a[:3]
        if len(a) > 3 or k or not isinstance(xp, A) or not isinstance(fp, A):
            raise Unsupp("interpolation")
        col = []
        for v in (xp, fp):
            c = [P.of(e).const() for e in v.a]
            hit = [j for j in range(4) if c == [P.of(r[j]).const() for r in IGRF]]
            if not hit:
                raise Wrong("the table of field coefficients is not IGRF-12")
            col.append(hit[0])
        if col[0] != 0:
            raise Wrong("coefficients are not interpolated over the year")
        return fn("igrf%d" % col[1], (P.of(x),))
    return {N + "as_datetime64": as64, N + "as_datetime": asdt, N + "as_timedelta": ident,
            N + "datetime64_as_years": lambda it, a, k: years if years is not None else var("years"),
            N + "is_datetime_like": lambda it, a, k: isinstance(a[0], (str, Stamp)),
            "numpy.interp": interp, C + "make_rotation": h_make_rotation,
            "numpy.isclose": generic_close}


class Wrong(Exception):
    pass


def reference(n=3, tilt=None, gsm=None, notilt=False):
    """elementary matrices by number"""
    mjd = fn("floor", (var("epochsec") / 86400,))
    ut = var("daysec") / 3600
    t0 = (mjd - P.of("51544.5" and 51544) - P.of(1) / 2) / 36525
    F = lambda s: P.of(__import__("fractions").Fraction(s))
    E = {}
    eye = [[P.of(int(i == j)) for j in range(n)] for i in range(n)]
    E[0] = eye
    E[1] = frame_rot("z", abstract_angle(F("100.461") + F("36000.770") * t0 + F("15.04107") * ut), n)
    eps = F("23.439") - F("0.013") * t0
    m = (F("357.528") + F("35999.050") * t0 + F("0.04107") * ut) * deg
    lam = F("280.460") + F("36000.772") * t0 + F("0.04107") * ut
    lam_s = lam + (F("1.915") - F("0.0048") * t0) * sin(m) + F("0.020") * sin(2 * m)
    E[2] = matmul(frame_rot("z", abstract_angle(lam_s), n), frame_rot("x", abstract_angle(eps), n))
    y = var("years")
    g10, g11, h11 = (fn("igrf%d" % i, (y,)) for i in (1, 2, 3))
    lon = fn("arctan2", (h11, g11)) + alg.pi
    lat = alg.pi / 2 - fn("arcsin", ((g11 * cos(lon) + h11 * sin(lon)) / g10,))
    if notilt:
        E[1] = E[2] = eye
    E[5] = eye if notilt else matmul(frame_rot("y", abstract_angle(lat / deg - 90), n),
                                     frame_rot("z", abstract_angle(lon / deg), n))
    if tilt is None and not notilt:
        q = [cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)]
        q = [alg.P.of(x) for x in q]
        t = matmul(E[2], transpose(E[1]))
        q = matvec([r[:3] for r in t[:3]], q)
        gsm = fn("arctan2", (q[1], q[2])) / deg
        tilt = fn("arctan2", (q[0], alg.sqrt(q[1] * q[1] + q[2] * q[2]))) / deg
    elif notilt:
        tilt, gsm = (P.of(0) if x is None else x for x in (tilt, gsm))
    E[3] = frame_rot("x", -abstract_angle(gsm), n)
    E[4] = frame_rot("y", -abstract_angle(tilt), n)
    E[6] = [[P.of((-1 if i < 2 else 1) if i == j else 0) for j in range(n)] for i in range(n)]
    return E


# from GSE: the chain that leads from each system to GSE
TO_GSE = {"gei": [2], "geo": [2, -1], "gse": [], "gsm": [-3], "sm": [-3, -4], "mag": [2, -1, -5],
          "mhd": [6]}


def chain(E, lst):
    m = E[0]
    for k in lst:
        m = matmul(m, E[k] if k >= 0 else transpose(E[-k]))
    return m


def run(ctx):
    ctx.rule("elementary", "elementary matrices and angle formulas have the documented canonical form")
    ctx.rule("pair", "the matrix between two systems equals the composition through GSE")
    ctx.rule("inverse", "the matrix of the opposite direction is the transpose, in any order of requests")
    ctx.rule("apply", "transform() applies the matrix to every vector and keeps the shape")
    ctx.rule("dipole", "moment, tilt and rotation angles describe the same orientation")
    ctx.assumptions = ["dates reduce to seconds since 1858-11-17 and seconds of the day (npdatetime)"]
    vn = VN(ctx)
    call = vn.call
    t = var("t")

    def eqs(name, fname, got, want, rule="elementary", simp=None):
        def go():
            try:
                return differ(got(), want(), simp=simp)
            except Wrong as e:
                return str(e)
        vn.check(rule, name, C + fname, go)

    def generic_call(q, *a):
        it = vn.interp()
        it.decider = gen
        return it.call_qual(q, list(a))

    def gen(b):
        """an angle that is not exactly zero"""
        if b.k[0] == "not":
            d = gen(b.k[1])
            return None if d is None else not d
        return False if b.k[0] == "eq" else None
    nz = lambda p: decide(p, lambda b: False if b.k[0] == "eq" else None)
    for ax, w in (("x", "x"), ("y", "y"), ("z", "z"), (0, "x"), (1, "y"), (2, "z"), (" Z", "z")):
        for n in (3, 4):
            eqs("make_rotation %s rdim %d" % (ax, n), "make_rotation",
                lambda: generic_call(C + "make_rotation", t, ax, n),
                lambda: arr(frame_rot(w, t * deg, n)), simp=nz)
        eqs("make_rotation %s by 0" % ax, "make_rotation",
            lambda: call(C + "make_rotation", P.of(0), ax), lambda: arr(frame_rot(w, P.of(0))))
    v = symarr("v", (3,))
    vs = [P.of(e) for e in v.a]

    def transl():
        m, im = call(C + "make_translation", v)
        m, im = rows(m), rows(im)
        for s, x in ((1, m), (-1, im)):
            for i in range(4):
                for j in range(4):
                    w = P.of(1) if i == j else (vs[i] * s if j == 3 and i < 3 else P.of(0))
                    if not zero(x[i][j] - w):
                        return "element [%d,%d]" % (i, j)
        return None
    vn.check("elementary", "make_translation", C + "make_translation", transl)

    def cotr(it, **kw):
        kw.setdefault("time", "2004-03-07T12:00:00")
        return it.construct(C + "Cotr", [], kw)

    def meth(it, o, name, *a, **k):
        return it.call(it.getattr(o, name), list(a), k)

    def guard(f):
        def go():
            try:
                return f()
            except Wrong as e:
                return str(e)
        return go

    def fresh(years=None):
        it = vn.interp(time_hooks(years))
        it.maxsteps = 2000000
        return it

    modes = {"date": dict(kw=dict(notilt1967=False), ref=lambda n: reference(n)),
             "angles": dict(kw=dict(notilt1967=False, dip_tilt=var("mu"), dip_gsm=var("psi")),
                            ref=lambda n: reference(n, var("mu"), var("psi"))),
             "tilt only": dict(kw=dict(notilt1967=False, dip_tilt=var("mu")),
                               ref=lambda n: reference(n, var("mu"), P.of(0))),
             "gsm only": dict(kw=dict(notilt1967=False, dip_gsm=var("psi")),
                              ref=lambda n: reference(n, P.of(0), var("psi"))),
             "1967": dict(kw=dict(), years=P.of(1967), ref=lambda n: reference(n, notilt=True)),
             "1967 angles": dict(kw=dict(dip_tilt=var("mu"), dip_gsm=var("psi")), years=P.of(1967),
                                 ref=lambda n: reference(n, var("mu"), var("psi"), notilt=True)),
             "1967 as is": dict(kw=dict(notilt1967=False), years=P.of(1967), ref=lambda n: sub67(reference(n)))}

    def sub67(E):
        f = lambda a: P.of(1967) if a.kind == "var" and a.name == "years" else None
        return {k: [[replace(x, f) for x in r] for r in m] for k, m in E.items()}
    for mode, md in modes.items():
        if mode == "1967 as is":
            continue
        for n in ((3, 4) if mode in ("date", "angles") else (3,)):
            E = md["ref"](n)
            for a in GEO:
                def pair(b, order):
                    it = fresh(md.get("years"))
                    o = cotr(it, rdim=n, **md["kw"])
                    mag = "mag" in (a, b) and a != b and mode in ("angles", "tilt only", "gsm only")
                    try:
                        if order:
                            meth(it, o, "get_transform_matrix", b, a)
                        g = meth(it, o, "get_transform_matrix", a, b)
                    except Raised as e:
                        if mag and e.explicit:
                            return None
                        raise
                    if mag:
                        return "geomagnetic coordinates are available although the dipole is set by hand"
                    return differ(g, arr(matmul(transpose(chain(E, TO_GSE[b])), chain(E, TO_GSE[a]))))
                for b in GEO:
                    vn.check("pair", "%s->%s %s rdim %d" % (a, b, mode, n), C + "Cotr.get_transform_matrix",
                             guard(lambda: pair(b, False)))
                    if mode == "date" and n == 3:
                        vn.check("inverse", "%s->%s after %s->%s" % (a, b, b, a),
                                 C + "Cotr.get_transform_matrix", guard(lambda: pair(b, True)))

    # every pair once more on one object: requests do not influence each other
    def oneobject(order):
        it = fresh()
        E = reference(3)
        o = cotr(it, notilt1967=False)
        for a in order:
            for b in order:
                g = meth(it, o, "get_transform_matrix", a, b)
                d = differ(g, arr(matmul(transpose(chain(E, TO_GSE[b])), chain(E, TO_GSE[a]))))
                if d:
                    return "%s->%s %s" % (a, b, d)
        return None
    vn.check("inverse", "all pairs on one object", C + "Cotr.get_transform_matrix",
             guard(lambda: oneobject(GEO)))
    vn.check("inverse", "all pairs on one object, reversed", C + "Cotr.get_transform_matrix",
             guard(lambda: oneobject(GEO[::-1])))

    # heliocentric systems: identities only, everything else is refused
    def helio(a, b):
        it = fresh()
        o = cotr(it, notilt1967=False)
        try:
            g = meth(it, o, "transform", a, b, v)
        except Raised as e:
            return None if e.explicit and a != b else "raises %s" % e
        return differ(g, v) if a == b else "a transform without a formula returns a value"
    for a in HEL:
        for b in HEL + ("gse", "sm"):
            vn.check("pair", "%s->%s" % (a, b), C + "Cotr.transform", guard(lambda: helio(a, b)))
            if b in GEO:
                vn.check("pair", "%s->%s" % (b, a), C + "Cotr.transform", guard(lambda: helio(b, a)))

    # applying
    def apply(a, b, n, shape, low=False):
        it = fresh()
        E = reference(n, var("mu"), var("psi"))
        o = cotr(it, notilt1967=False, dip_tilt=var("mu"), dip_gsm=var("psi"), rdim=n)
        x = symarr("v", shape)
        g = meth(it, o, "transform", a.upper() + " " if low else a, b.upper() if low else b, x)
        m = [r[:3] for r in matmul(transpose(chain(E, TO_GSE[b])), chain(E, TO_GSE[a]))[:3]]
        if len(shape) == 1:
            w = arr(matvec(m, [P.of(e) for e in x.a]))
        else:
            w = arr(matmul(m, rows(x)))
        return differ(g, w)
    for n in (3, 4):
        for shape in ((3,), (3, 1), (3, 2), (3, 3), (3, 4)):
            for a, b in (("sm", "gse"), ("gse", "mhd"), ("mhd", "sm")):
                vn.check("apply", "transform %s->%s shape %s rdim %d" % (a, b, shape, n),
                         C + "Cotr.transform", guard(lambda: apply(a, b, n, shape)))
    vn.check("apply", "names in any case", C + "Cotr.transform",
             guard(lambda: apply("sm", "gse", 3, (3,), True)))
    for shape in ((3,), (3, 2)):
        def ct():
            it = fresh()
            E = reference(3)
            x = symarr("v", shape)
            g = it.call_qual(C + "cotr_transform", ["2004-03-07T12:00:00", "gse", "mhd", x, False])
            m = E[6]
            return differ(g, arr(matvec(m, [P.of(e) for e in x.a]) if len(shape) == 1
                                 else matmul(m, rows(x))))
        vn.check("apply", "cotr_transform %s" % (shape,), C + "cotr_transform", guard(ct))

    # dipole
    s = var("s")

    def moment(fname, csys):
        it = fresh(P.of(2004) if fname == "get_dipole_moment_ang" else None)
        E = reference(3, var("mu"), var("psi"))
        if fname == "get_dipole_moment_ang":
            g = it.call_qual(C + fname, [var("mu"), var("psi")], dict(crd_system=csys, strength=s))
        else:
            o = cotr(it, notilt1967=False, dip_tilt=var("mu"), dip_gsm=var("psi"))
            g = meth(it, o, "get_dipole_moment", csys, strength=s)
        return differ(g, arr(matvec(matmul(transpose(chain(E, TO_GSE[csys])), chain(E, TO_GSE["sm"])),
                                    [P.of(0), P.of(0), -s])))
    for f in ("get_dipole_moment_ang", "Cotr.get_dipole_moment"):
        for csys in ("gse", "mhd", "gsm", "sm"):
            if f == "get_dipole_moment_ang":
                # the date (0) is irrelevant when both angles are given
                pass
            vn.check("dipole", "%s %s" % (f, csys), C + f, guard(lambda: moment(f, csys)))

    def moment_date():
        it = fresh()
        E = reference(3)
        g = it.call_qual(C + "get_dipole_moment", ["2004-03-07T12:00:00", "gse", s, False])
        return differ(g, arr(matvec(chain(E, TO_GSE["sm"]), [P.of(0), P.of(0), -s])))
    vn.check("dipole", "get_dipole_moment of a date", C + "get_dipole_moment", guard(moment_date))

    def angles(which):
        it = fresh()
        if which == "set":
            o = cotr(it, notilt1967=False, dip_tilt=var("mu"), dip_gsm=var("psi"))
            g = meth(it, o, "get_dipole_angles")
            return differ(g, (var("mu"), var("psi")))
        E = reference(3)
        g = it.call_qual(C + "get_dipole_angles", ["2004-03-07T12:00:00", False])
        if not isinstance(g, tuple) or len(g) != 2:
            return "does not return (tilt, gsm)"
        ref_ = [abstract_angle(P.of(x)) for x in g]
        for nm, m, ax, x in (("gsm", E[3], "x", ref_[1]), ("tilt", E[4], "y", ref_[0])):
            if differ(arr(m), arr(frame_rot(ax, -x))):
                return "the %s angle is not that of the dipole" % nm
        return None
    vn.check("dipole", "angles that were set", C + "Cotr.get_dipole_angles", guard(lambda: angles("set")))
    vn.check("dipole", "angles of a date", C + "get_dipole_angles", guard(lambda: angles("date")))

    def m2c(csys):
        it = fresh(P.of(2004))
        it.hooks.pop(C + "make_rotation")
        it.decider = gen
        o = it.call_qual(C + "dipole_moment2cotr", [v, csys])
        tl, gs = (P.of(x) * deg for x in meth(it, o, "get_dipole_angles"))
        w = [-vs[0], -vs[1], -vs[2]] if csys == "gse" else [vs[0], vs[1], -vs[2]]
        h = alg.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2])
        got = [sin(tl), cos(tl) * sin(gs), cos(tl) * cos(gs)]
        for i in range(3):
            d = alg.simplify(nz(got[i]) - w[i] / h)
            if not zero(d):
                return "component %d of the dipole axis does not match the moment: %s" % (
                    i, alg.show(d, 3)[:200])
        return None
    for csys in ("gse", "mhd"):
        vn.check("dipole", "dipole_moment2cotr %s" % csys, C + "dipole_moment2cotr", guard(lambda: m2c(csys)))

    # axis and angle of a rotation matrix (degrees)
    nvec = unit("n")

    def wxyz(thr, quick, sign):
        m = rodrigues(nvec, t)

        def eig(it, args, kw):
            a = args[0].a
            mm = [[P.of(a[i, j]) for j in range(3)] for i in range(3)]
            im = matvec(mm, nvec)
            if any(not zero(x - y) for x, y in zip(im, nvec)):
                raise Wrong("the rotation axis is not an eigenvector of the matrix given to the solver")
            vecs = _np.empty((3, 3), dtype=object)
            for c in range(3):
                for i in range(3):
                    vecs[i, c] = nvec[i] * sign if c == 2 else var("other%d%d" % (c, i))
            return (arr([P.of(0), P.of(0), P.of(1)]), A(vecs))
        r = call(C + "get_rotation_wxyz", arr(m), False, quick,
                 _hooks={"numpy.isclose": generic_close, "numpy.linalg.eig": eig})
        if not isinstance(r, A) or r.dims != (4,):
            return "does not return four numbers"

        def sg(a):
            if a.kind == "fn" and a.name == "abs":
                if alg.same(a.args[0], sin(t)):
                    return sin(t)
                for x in nvec:
                    for y in (1 - x * x, x * x - 1):
                        if alg.same(a.args[0], y):
                            return 1 - x * x
            return None
        eps = fn("abs", (var("positive"),))

        def crit(b):
            b0 = b.k[1] if b.k[0] == "not" else b
            val = None
            if b0.k[0] == "lt":
                x = alg.simplify(replace(replace(decide(b0.k[1], crit), unclip), sg))
                y = replace(x, lambda a: eps if a.kind == "fn" and a.name == "sin" and
                            alg.same(a.args[0], t) else None)
                if alg.nonneg(y) or not y.t:
                    val = False
                elif alg.nonneg(-y):
                    val = True
                elif any(alg.show_atom(alg._ATOMS[i])[:1] == "n" for i in alg.atoms_of(x)):
                    val = thr
            elif b0.k[0] == "and":
                val = thr
            return val if val is None or b0 is b else not val
        out = []
        for e in r.a:
            p = alg.simplify(replace(replace(decide(P.of(e), crit), unclip), sg))
            if any(alg._ATOMS[i].kind == "phi" for i in alg.atoms_of(p)):
                raise Unsupp("selection that depends on the orientation")
            out.append(p)
        m2 = rodrigues(out[1:], out[0] * deg)
        for i in range(3):
            for j in range(3):
                d = alg.simplify(replace(m2[i][j] - m[i][j], sg))
                if not zero(d):
                    return "element [%d,%d] of the recovered matrix differs: %s" % (
                        i, j, alg.show(d, 4)[:200])
        return None
    for thr in (False, True):
        vn.check("dipole", "get_rotation_wxyz helper=%s" % thr, C + "get_rotation_wxyz",
                 guard(lambda: wxyz(thr, True, 1)))
    for sign in (1, -1):
        vn.check("dipole", "get_rotation_wxyz eigenvector %+d" % sign, C + "get_rotation_wxyz",
                 guard(lambda: wxyz(False, False, sign)))
    vn.finish()
    ctx.need(sum(1 for o in ctx.obligations if o[2] != "undecided"), 10, "decided obligations")
