"""Value numbering of OpenGGCM grids (viscid/readers/openggcm.py, grid.py): a grid is filled with
fields that live in data sets of symbols; what the grid hands out, directly or derived, must be
the values at the same place in gse coordinates, with the components that change sign, combined
by the documented formulas."""
from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as _np
from .. import alg
from ..alg import P, var
from ..interp import A, Obj, Native, symarr, arr, Unsupp, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS, shape
from .c23 import nodes, centers
from .c24 import lazy

M = "viscid.readers.openggcm"
Q = M + ".GGCMGrid."
NS = (5, 6, 7)
SRC = '''
def probe(cc, flds, infos, req, opts):
    g = GGCMGrid(name="grid")
    g.set_info("_viscid_log_fname", None)
    for key, val in infos.items():
        g.set_info(key, val)
    g.mhd_to_gse_on_read = req
    g.copy_on_transform = opts["copy"]
    g.longterm_field_caches = opts["cache"]
    g.force_vector_layout = opts["force"]
    crds = wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    g.set_crds(crds)
    for name, d in flds:
        g.add_field(viscid.wrap_field(d[0], crds, name=name, center=d[3], fldtype=d[1], layout=d[2], time=3.0,
                                      zyx_native=True))
    r = %(expr)s
    if not isinstance(r, field.Field):
        return [r, None, None, None, None, None, None]
    return [r.component_views() if r.nr_comps else [r.data], r.center, r.get_crds_nc(), r.nr_comps,
            r.find_info("crd_system", None), r.name, r.get_crds_cc()]
'''
SCALARS = ["rr", "pp", "resis", "bz", "vz", "jz", "ez_cc", "zmask", "divB_"]
FLIPPED = ("bx, by, ex, ey, vx, vy, rv1x, rv1y, jx, jy, xjx, xjy, b1x, b1y, bx1, by1, b2x, b2y, bx2, by2, "
           "ex_cc, ey_cc, ex_ec, ey_ec, eflx, efly").split(", ")
VECTORS = "v, b, b1, b2, b_cc, b_fc, e_cc, e_ec, efl, j, xj".split(", ")
OPTS = {"copy": False, "cache": False, "force": "none"}


def run(ctx):
    ctx.rule("read", "values read from a grid in mhd coordinates are those at the same place in gse coordinates")
    ctx.rule("decide", "the grid is converted exactly when the request and the known coordinate system say so")
    ctx.rule("derive", "derived quantities are the documented formula of the stored ones, in the coordinates of the grid")
    vn = VN(ctx, 6000000)
    proj = ctx.proj
    sh = shape("cell", NS)

    def raw(name, nr=0, lay="flat"):
        """values on disk in x, y, z order, in the axes of the file"""
        if not nr:
            return symarr(name, sh)
        return symarr(name, (nr,) + sh) if lay == "flat" else symarr(name, sh + (nr,))

    def disk(a, lay, center, inmem=False, ):
        """zyx ordered data set"""
        v = a.a
        if lay == "scalar":
            v = v.transpose(2, 1, 0)
        elif lay == "flat":
            v = v.transpose(0, 3, 2, 1)
        else:
            v = v.transpose(2, 1, 0, 3)
        return (A(v.copy()) if inmem else lazy(proj, v, center != "Cell2"), "scalar" if lay == "scalar" else "vector",
                "flat" if lay == "scalar" else lay, center)

    def grid(expr, flds, req, infos=None, order=None, numexpr=False, **opts):
        it = vn.interp(dict(HOOKS), {M + "._has_numexpr": numexpr})
        if order:
            it.decider = order
        o = dict(OPTS)
        o.update(opts)
        r = it.probe(M, SRC % dict(expr=expr), [nodes(NS), flds, infos or {}, req, o])
        vn.reached |= it.calls
        if r[1] is not None:
            r[0] = [it.getattr(c, "data") if isinstance(c, Obj) else c for c in r[0]]
        return r

    def turned(a, gse, sign=1):
        v = a.a[::-1, ::-1] if gse else a.a
        return A(v * sign) if gse and sign != 1 else A(v)

    def comp(a, lay, c):
        return A(a.a[c] if lay == "flat" else a.a[..., c])

    def check(r, want, gse, name=None, center="cell", sys=None, crds=True):
        data, cen, nc, nrc, cs, nm, cc = r
        if cen is None:
            return "the result is not a field"
        if len(data) != len(want):
            return "%d components instead of %d" % (len(data), len(want))
        for c, (d, w) in enumerate(zip(data, want)):
            m = differ(d, w, "component %d: " % c if len(want) > 1 else "value ")
            if m:
                return m
        if crds:
            for x, g, n in zip("xyz", nc, nodes(NS)):
                m = differ(g, A(-n.a[::-1]) if gse and x in "xy" else n, "node coordinate %s: " % x)
                if m:
                    return m
        if cen.lower() != center:
            return "%s centered instead of %s" % (cen, center)
        if sys is not None and cs != sys:
            return "the coordinate system is %s instead of %s" % (cs, sys)
        return (name is not None and nm != name and "named %s instead of %s" % (nm, name)) or None

    # --- reading -----------------------------------------------------------------------------
    modes = [("force", True, {}), ("auto", True, {"crd_system": "mhd"}), (False, False, {"crd_system": "mhd"}),
             ("auto", False, {"crd_system": "gse"})]
    for req, gse, infos in modes:
        sys = "gse" if gse else infos.get("crd_system")
        for numexpr, opts in ((False, {}), (True, {"copy": True}), (False, {"copy": True}), (False, {"cache": True})):
            tag = "%s %s%s%s" % (req, infos.get("crd_system", ""), " numexpr" if numexpr else "",
                                 "".join(" " + k for k in opts))
            for name in SCALARS + FLIPPED:
                if opts and name not in ("rr", "vx", "b1y", "bz"):
                    continue
                a = raw(name)
                s = -1 if name in FLIPPED else 1
                for how, expr, sel in (("", "g['%s']" % name, None),
                                       (" twice", "[g['%s'].data, g['%s']][1]" % (name, name), None),
                                       (" reloaded", "(lambda f: [f.data, f.clear_cache(), f][2])(g['%s'])" % name, None),
                                       (" sliced", "g.get_field('%s', slc='x=1:,y=::2,z=-2')" % name,
                                        (slice(1, None), slice(None, None, 2), slice(-2, -1))),
                                       (" with", "[f for f in g.iter_fields(['%s'])][0]" % name, None)):
                    if how and name not in ("rr", "vx", "bz", "efly"):
                        continue
                    for inmem in (False, True):
                        if inmem and name not in ("rr", "vx"):
                            continue

                        def thunk(expr=expr, sel=sel, a=a, s=s, name=name, gse=gse, req=req, infos=infos, opts=opts,
                                  numexpr=numexpr, inmem=inmem, sys=sys):
                            r = grid(expr, [(name, disk(a, "scalar", "Cell", inmem))], req, infos, None, numexpr, **opts)
                            w = turned(a, gse, s)
                            if sel:
                                w = A(w.a[sel])
                            return check(r, [w], gse, name, sys=sys, crds=sel is None)
                        vn.defer("read", "%s%s %s%s" % (name, how, tag, " in memory" if inmem else ""), Q + "add_field", thunk)
            for name, lay in [(n, "flat") for n in VECTORS[:4 if opts else None]] + [("b", "interlaced"), ("v", "interlaced")]:
                a = raw(name, 3, lay)
                want = [turned(comp(a, lay, c), gse, (-1, -1, 1)[c]) for c in range(3)]
                cases = [("", "g['%s']" % name, want, None)]
                if name in ("b", "v"):
                    cases += [(" " + x, "g['%s']['%s']" % (name, x), want[c:c + 1], None) for c, x in enumerate("xyz")]
                    cases += [(" loaded " + x, "[g['%s'].data, g['%s']['%s']][1]" % (name, name, x), want[c:c + 1], None)
                              for c, x in enumerate("xyz")]
                    cases += [(" sliced " + x, "g['%s']['%s, x=1:, z=2:']" % (name, x),
                               [A(want[c].a[1:, :, 2:])], True) for c, x in enumerate("xyz")]
                    cases += [(" sliced", "g.get_field('%s', slc='y=1:3')" % name, [A(w.a[:, 1:3]) for w in want], True)]
                for how, expr, w, sliced in cases:
                    def thunk(expr=expr, w=w, sliced=sliced, a=a, lay=lay, name=name, gse=gse, req=req, infos=infos,
                              opts=opts, numexpr=numexpr, sys=sys):
                        r = grid(expr, [(name, disk(a, lay, "Cell"))], req, infos, None, numexpr, **opts)
                        return check(r, w, gse, None, sys=sys, crds=not sliced)
                    vn.defer("read", "%s %s%s %s" % (name, lay, how, tag), Q + "add_field", thunk)

    # --- deciding ----------------------------------------------------------------------------
    def log(l, h, typ="ggcm", ic=""):
        d = {"_viscid_log_fname": "run.log", "ggcm_mhd_ic_type": ic, "mrc_crds_l": [l, "-1", "-1"], "mrc_crds_h": [h, "1", "1"]}
        d["ggcm_mhd_type"] = typ
        return d
    MHD, GSE, BOX = log("-30.0", "300.0"), log("-300.0", "30.0"), log("-30.0", "300.0", "box")
    MIR = log("-30.0", "300.0", "mangled", "mirdip_larl")
    UNK = {"_viscid_log_fname": None}
    OFF = {"_viscid_log_fname": False}
    table = [(True, UNK, True), ("True", GSE, True), (" Force ", GSE, True), ("force", BOX, True), (False, MHD, False),
             ("false", UNK, False), ("False", {"crd_system": "mhd"}, False),
             ("auto", MHD, True), ("auto", GSE, False), ("auto", BOX, False), ("auto", MIR, True), ("auto", UNK, False),
             ("auto", OFF, False), ("AUTO", {"crd_system": "mhd"}, True), ("auto", {"assume_mhd_crds": True}, True),
             ("auto", {"assume_mhd_crds": True, "crd_system": "gse"}, False), ("auto", {"assume_mhd_crds": False}, False),
             ("auto", {"_viscid_do_mhd_to_gse_on_read": True}, True), ("force", {"_viscid_do_mhd_to_gse_on_read": False, "crd_system": "mhd"}, False),
             ("auto_true", MHD, True), ("auto_true", GSE, False), ("auto_true", BOX, True), ("auto_true", UNK, True),
             ("auto_true", OFF, True), ("auto_true", {"crd_system": "other"}, True), ("auto", {"crd_system": "other"}, False)]
    for i, (req, infos, gse) in enumerate(table):
        a = raw("vx")

        def thunk(req=req, infos=infos, gse=gse, a=a):
            r = grid("g['vx']", [("vx", disk(a, "scalar", "Cell"))], req, infos)
            return check(r, [turned(a, gse, -1)], gse, "vx", sys="gse" if gse else None)
        vn.defer("decide", "%r %s" % (req, sorted((k, str(v)) for k, v in infos.items())), Q + "_do_mhd_to_gse_on_read", thunk)

    def bad():
        try:
            grid("g['vx']", [("vx", disk(raw("vx"), "scalar", "Cell"))], "perhaps", {})
        except Raised as e:
            return None if e.explicit and "ValueError" in e.names else "raises %s" % e.names[0]
        return "an unknown request is accepted"
    vn.defer("decide", "unknown request", Q + "_do_mhd_to_gse_on_read", bad)
    derived(vn, grid, raw, disk, turned, check)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


def derived(vn, grid, raw, disk, turned, check):
    def val(name, gse, sign=1):
        return turned(raw(name), gse, sign)

    def vec(names, gse):
        return [val(n, gse, (-1, -1, 1)[c]) for c, n in enumerate(names)]

    def stored(names):
        return [(n, disk(raw(n), "scalar", "Cell")) for n in names]

    def each(f, *xs):
        out = _np.empty(xs[0].a.shape, dtype=object)
        for i in _np.ndindex(out.shape):
            out[i] = f(*[P.of(x.a[i]) for x in xs])
        return A(out)
    mag = lambda x, y, z: alg.sqrt(x * x + y * y + z * z)
    xyz = lambda b, s="": [b + c + s for c in "xyz"]
    def both(req, gse):
        def add(name, stored_names, want, title=None, numexpr=(False,), infos=None, **opts):
            for ne in numexpr:
                def thunk(ne=ne):
                    r = grid("g['%s']" % name, stored(stored_names), req, infos, None, ne, **opts)
                    return check(r, want(), gse, title)
                vn.defer("derive", "%s from %s %s%s%s" % (name, " ".join(stored_names), "gse" if gse else "as stored",
                         " numexpr" if ne else "", "".join(" %s=%s" % o for o in opts.items())), Q + "_get_" + name.split("=")[0].strip(), thunk)
        add("T", ["pp", "rr"], lambda: [each(lambda p, r: p / r, val("pp", gse), val("rr", gse))], "T")
        for b in "bvj":
            add(b, xyz(b) if b != "j" else xyz("xj"), lambda b=b: vec(xyz(b) if b != "j" else xyz("xj"), gse), b)
            for c in (0, 1, 2):
                if b != "j":
                    a = raw(b, 3)

                    def thunk(b=b, c=c, a=a):
                        r = grid("g['%s%s']" % (b, "xyz"[c]), [(b, disk(a, "flat", "Cell"))], req)
                        return check(r, [turned(A(a.a[c]), gse, (-1, -1, 1)[c])], gse)
                    vn.defer("derive", "%s%s from %s %s" % (b, "xyz"[c], b, "gse" if gse else "as stored"), Q + "_get_" + b + "xyz"[c], thunk)
                else:
                    add("j" + "xyz"[c], xyz("xj"), lambda c=c: vec(xyz("xj"), gse)[c:c + 1])
            add({"b": "bmag", "v": "speed", "j": "jmag"}[b], xyz(b) if b != "j" else xyz("xj"),
                lambda b=b: [each(mag, *vec(xyz(b) if b != "j" else xyz("xj"), gse))], None, (False, True))
        for lay in ("flat", "interlaced"):
            add("b", xyz("b"), lambda: vec(xyz("b"), gse), "b", force=lay)
            add("v", xyz("v"), lambda: vec(xyz("v"), gse), "v", force=lay, cache=True)
        add("xj", xyz("xj"), lambda: vec(xyz("xj"), gse))
        add("b_cc", xyz("b"), lambda: vec(xyz("b"), gse))
        add("e_cc", xyz("e", "_cc"), lambda: vec(xyz("e", "_cc"), gse))
        add("e", xyz("e"), lambda: vec(xyz("e"), gse))
        add("beta", ["pp"] + xyz("b"), lambda: [each(
            lambda p, x, y, z: P.of(80) * p / (x * x + y * y + z * z), val("pp", gse), *vec(xyz("b"), gse))])
        for k, infos in ((var("norm"), {"ggcm_mhd_bbnorm": var("norm")}), (P.of(0), None)):
            if infos is None:
                continue
            add("divB", ["divB"], lambda k=k: [each(lambda d: d * k, val("divB", gse))], infos=infos)
        def psi(gse=gse, req=req):
            seen = []

            def calc(it, a, k):
                seen.append((a[0] if a else k["B"], a[1] if len(a) > 1 else k.get("rev", False)))
                return seen[-1][0]
            it = vn.interp({**HOOKS, "viscid.calculator.plasma.calc_psi": calc}, {M + "._has_numexpr": False})
            it.probe(M, SRC % dict(expr="g['psi']"), [nodes(NS), stored(xyz("b")), {"crd_system": "mhd"}, req, OPTS])
            vn.reached |= it.calls
            if len(seen) != 1:
                return "calc_psi is called %d times" % len(seen)
            if it.truth(seen[0][1]) != gse:
                return "rev is %s" % seen[0][1]
            B = seen[0][0]
            got = [it.getattr(it.getitem(B, x), "data") for x in "xyz"]
            return differ(got, vec(xyz("b"), gse), "the magnetic field ")
        vn.defer("derive", "psi %s" % ("gse" if gse else "as stored"), Q + "_get_psi", psi)
        # staggered fields: the value at each place
        for name, center in (("b1", "face"), ("b2", "face"), ("b_fc", "face"), ("b", "cell"), ("b_cc", "cell"), ("e_ec", "edge"), ("efl", "edge"), ("e_cc", "cell"), ("e", "cell")):
            for names, scale, typ in sources(name):
                def thunk(name=name, names=names, scale=scale, typ=typ, center=center):
                    infos = {"ggcm_mhd_fld_mhd_type_str": typ, "ggcm_mhd_bbnorm": var("norm")}
                    r = grid("g['%s']" % name, stored(names), req, infos)
                    return staggered(r, names, var("norm") if scale else P.of(1), typ, center, name[0] == "e", gse)
                vn.defer("derive", "%s from %s %s %s" % (name, names[0], typ, "gse" if gse else "as stored"), Q + "_get_" + name, thunk)

    both("force", True)
    both(False, False)


def sources(name):
    n = {"b1": "1", "b2": "2"}.get(name, "1")
    if name[0] == "b":
        for m in n if name in ("b1", "b2") else "12":
            for typ in ("FC", "FC_GGCM"):
                yield ["b%s%s" % (m, c) for c in "xyz"], True, typ
                yield ["b%s%s" % (c, m) for c in "xyz"], False, typ
    else:
        for typ in ("FC", "FC_GGCM"):
            if name != "efl":
                yield ["e%s_ec" % c for c in "xyz"], False, typ
            yield ["efl%s" % c for c in "xyz"], False, typ


def staggered(r, names, scale, typ, center, edge, gse):
    """places of the values of a staggered field: along each axis on nodes or half way"""
    data, cen, nc, nrc, cs, nm, cc = r
    if cen is None or len(data) != 3:
        return "the result is not a vector field"
    if cen.lower() != center:
        return "%s centered instead of %s" % (cen, center)
    sh = shape("cell", NS)
    full = nodes(NS)
    trailing = typ.endswith("_GGCM")
    values = []                             # component -> place -> value
    for c, n in enumerate(names):
        a = symarr(n, sh)
        d = {}
        for i in _np.ndindex(sh):
            place = []
            for ax in range(3):
                on_node = (ax == c) != edge
                s = -1 if gse and ax < 2 else 1
                x = full[ax].a
                place.append((P.of(x[i[ax] + trailing]) if on_node else (P.of(x[i[ax]]) + x[i[ax] + 1]) / 2) * s)
            d[tuple(p.key for p in place)] = P.of(a.a[i]) * scale * (-1 if gse and c < 2 else 1)
        values.append(d)
    dims = data[0].dims
    turned = [[P.of(v) * (-1 if gse and ax < 2 else 1) for v in full[ax].a] for ax in range(3)]
    turned = [t[::-1] if gse and ax < 2 else t for ax, t in enumerate(turned)]
    cells = [{((u + v) / 2).key: (u, v) for u, v in zip(t, t[1:])} for t in turned]
    for c in range(3):
        for i in _np.ndindex(dims):
            if center == "cell":    # the outermost cells repeat their neighbours
                k = tuple(min(max(j, 1), d - 2) for j, d in zip(i, dims))
                if k != i:
                    m = differ(data[c].a[i], data[c].a[k], "component %d at %s: " % (c, i))
                    if m:
                        return m
                    continue
            lo, mid, hi = [], [], []
            for ax in range(3):
                x = nc[ax].a
                m = P.of(cc[ax].a[i[ax]]) if center == "cell" else (P.of(x[i[ax]]) + x[i[ax] + 1]) / 2
                u, v = cells[ax].get(m.key, (None, None))
                if u is None:
                    return "no cell of the grid is at %s" % m
                if center != "cell" and not alg.same(u, P.of(x[i[ax]])):
                    return "node %s instead of %s" % (x[i[ax]], u)
                lo.append(u)
                mid.append(m)
                hi.append(v)
            # a cell value is the mean of the surrounding staggered ones
            node = [(ax == c) != edge for ax in range(3)]
            opts = [((lo[ax], hi[ax]) if center == "cell" else (lo[ax],)) if node[ax] else (mid[ax],) for ax in range(3)]
            vs = []
            for place in itertools.product(*opts):
                v = values[c].get(tuple(p.key for p in place))
                if v is None:
                    return "component %d at %s: nothing is stored at %s" % (c, i, place)
                vs.append(v)
            m = differ(data[c].a[i], sum(vs, P.of(0)) / len(vs), "component %d at %s: " % (c, i))
            if m:
                return m
    if min(dims) < min(sh) - 2:
        return "values of shape %s from %s" % (dims, sh)
    return None
