"""Value numbering of saving and loading (viscid/readers/hdf5.py, xdmf.py, numpy_binary.py,
__init__.py): fields of symbols are written by the interpreted writers to a modelled disk and read
back by the interpreted readers; what is read must be what was saved."""
from __future__ import annotations
import itertools
from ..alg import P, var
from ..disk import Disk
from ..interp import A, Opaque, symarr, arr
from ..vn import VN, Order, differ
from .c14 import HOOKS, shape

M = "viscid.readers"
NS = (3, 2, 4)
SRC = '''
def probe(dats, cc, t, note, fname, opts):
    ax = opts["axes"]
    if opts["uniform"]:
        crds = viscid.wrap_crds("uniform_cartesian", [(a, [c[0], c[1], n]) for a, c, n in zip(ax, cc, opts["ns"])])
    else:
        crds = viscid.wrap_crds("nonuniform_cartesian", [(a, c) for a, c in zip(ax, cc)])
    g = viscid.grid.Grid(name="g")
    g.time = t
    if note is not None:
        g.set_info("crd_system", note)
    g.set_crds(crds)
    flds = []
    for name, center, nr, layout, d in dats:
        f = viscid.wrap_field(d, crds, name=name, center=center, fldtype="vector" if nr else "scalar", layout=layout, time=t)
        g.add_field(f)
        flds.append(f)
    crds = g.crds
    %(save)s
    after = [[f.name, f.center, f.data, f.layout, f.time] for f in flds]
    r = load_file("%(load)s")
    if r is None:
        raise RuntimeError("there is no file to load")
    out = []
    for f in r.iter_fields():
        out.append([f.name, f.center, f.data, f.layout, f.nr_comps, f.time, f.crds.axes, f.get_crds_nc(), f.get_crds_cc(),
                    f.find_info("crd_system", None), r[f.name].name, f.fldtype])
    return [out, after, r.time, len(list(r.iter_fields()))]
'''


def run(ctx):
    ctx.rule("saved", "what is loaded has the values, centering, coordinates, names and time of what was saved; what was saved is as before")
    vn = VN(ctx, 3000000)
    order = {var("c%s_%d" % (x, i)).key: float(i) for x in "xyz" for i in range(9)}
    order[var("time").key] = 5.0

    def go(kind, sets, save, t=None, note=None, uniform=False, axes="xyz", nd=3, raw=False, fname=None):
        fname = fname or ("out.h5" if kind == "h5" else "out.npz")
        load = fname.replace(".h5", ".xdmf")
        load = load if "." in load else load + ".npz"
        disk = Disk("/run")
        it = vn.interp(dict(HOOKS, **dict(disk.hooks(), **{"viscid.npdatetime.as_timedelta64": lambda it, a, k: Opaque("a duration")})))
        disk.install(it)
        it.decider = Order(order)
        ns = NS[:nd]
        cc = [symarr("c" + x, n) for x, n in zip("xyz", ns)]
        dats, want = [], []
        for name, center, nr, layout in sets:
            sh = tuple(n - (center != "node") for n in ns)
            full = sh if not nr else ((nr,) + sh if layout == "flat" else sh + (nr,))
            v = symarr("v" + name, full)
            dats.append([name, center, nr, layout if nr else None, v.copy()])
            want.append((name, center, nr, layout, v.a))
        res = it.probe(M, SRC % dict(save=save % dict(fname=fname), load=load),
                       [dats, cc, t, note, fname, {"uniform": uniform, "axes": list(axes[:nd]), "ns": list(ns)}])
        vn.reached |= it.calls
        if uniform:
            nodes = [[c.a[0] + (c.a[1] - c.a[0]) * P.of(i) / P.of(n - 1) for i in range(n)] for c, n in zip(cc, ns)]
        else:
            nodes = [list(c.a) for c in cc]
        return res, want, nodes

    def check(kind, sets, save, t, note, kw):
        def thunk():
            (out, after, rt, n), want, nodes = go(kind, sets, save, t, note, **kw)
            ax = list(kw.get("axes", "xyz")[:kw.get("nd", 3)])
            if len(out) != len(want):
                return "%d fields instead of %d" % (len(out), len(want))
            byname = {g[0]: g for g in out}
            for name, center, nr, layout, v in want:
                if name not in byname:
                    return "no field %s" % name
                g = byname[name]
                if g[1] != center or g[4] != nr or g[6] != ax or g[10] != name:
                    return "%s: %s centered, %s components, on %s, found under %s" % (name, g[1], g[4], g[6], g[10])
                a = g[2]
                import numpy as _np
                if nr:
                    a = A(_np.moveaxis(a.a, -1, 0)) if g[3] == "interlaced" else a
                    w = _np.moveaxis(v, -1, 0) if layout == "interlaced" else v
                else:
                    w = v
                r = differ(a, A(w), "values of %s " % name)
                for i in range(len(ax)):
                    r = r or differ(g[7][i], arr(nodes[i]), "%s coordinates " % ax[i])
                    cc = arr([(P.of(p) + P.of(q)) / P.of(2) for p, q in zip(nodes[i], nodes[i][1:])])
                    r = r or differ(g[8][i], cc, "%s cell coordinates " % ax[i])
                if kind == "h5":
                    if (g[5] is None) != (t is None):
                        return "the time %s" % (g[5],)
                    r = r or (differ(g[5], t, "time ") if t is not None else None)
                    if note is not None and g[9] != note:
                        return "crd_system %r" % (g[9],)
                if r:
                    return r
            for (name, center, nr, layout, v), b in zip(want, after):
                r = differ(b[2], A(v), "saved values of %s " % name)
                if r:
                    return r
            return None
        return thunk
    LIST = "save_fields('%(fname)s', flds)"
    SAVES = [("list", LIST), ("pairs", "save_fields('%(fname)s', [(f.name, f) for f in flds])"),
             ("dict", "save_fields('%(fname)s', viscid.compat.OrderedDict([(f.name, f) for f in flds]))"),
             ("grid", "save_grid('%(fname)s', g)"), ("prefer", "save_fields('%(fname)s', flds, prefer='hdf5' if '%(fname)s'[-1] == '5' else 'npz')")]
    sets = [("%s %s" % (c, l or "scalar"), [("p", c, nr, l)]) for c in ("node", "cell") for nr, l in ((0, None), (3, "flat"), (3, "interlaced"))]
    sets += [("face", [("p", "face", 3, "interlaced")]), ("edge", [("p", "edge", 3, "interlaced")]),
             ("two centers", [("p", "cell", 0, None), ("q", "node", 0, None)]),
             ("vector and scalar", [("b", "cell", 3, "interlaced"), ("p", "cell", 0, None), ("n", "node", 0, None)]),
             ("three", [("w", "node", 0, None), ("a", "node", 3, "flat"), ("m", "cell", 0, None)])]
    for kind in ("h5", "npz"):
        q = {"h5": "viscid.readers.hdf5.FileHDF5.save_fields", "npz": "viscid.readers.numpy_binary.FileNumpyNPZ.save_fields"}[kind]
        for (sn, st), (hn, save) in itertools.product(sets, SAVES):
            vn.defer("saved", "%s, %s, as %s" % (kind, sn, hn), q, check(kind, st, save, var("time"), None, {}))
        for sn, st in sets[:6]:
            vn.defer("saved", "%s, one field, %s" % (kind, sn), q, check(kind, st, "save_field('%(fname)s', flds[0])", var("time"), None, {}))
        for tn, t in (("zero", P.of(0)), ("number", P.of(12.25)), ("negative", P.of(-4))):
            vn.defer("saved", "%s, time %s" % (kind, tn), q, check(kind, sets[-1][1], LIST, t, None, {}))
        vn.defer("saved", "%s, no time" % kind, q, check(kind, sets[-1][1], LIST, None, None, {}))
        vn.defer("saved", "%s, uniform" % kind, q, check(kind, sets[-1][1], LIST, var("time"), None, {"uniform": True}))
        vn.defer("saved", "%s, uniform cell" % kind, q, check(kind, sets[1][1], LIST, var("time"), None, {"uniform": True}))
        vn.defer("saved", "%s, system" % kind, q, check(kind, sets[-1][1], LIST, var("time"), "gse" if kind == "h5" else None, {}))
        for fn in ("sub/out.%s", "out.10.%s", "/run/x.y/out.%s", "./out_1.%s", "a.b.c.%s"):
            fn = fn % kind
            vn.defer("saved", "file %s" % fn, q, check(kind, sets[-1][1], LIST, var("time"), None, {"fname": fn}))
        vn.defer("saved", "%s, compressed" % kind, q, check(kind, sets[-1][1], "save_fields('%(fname)s', flds, complevel=4)", var("time"), None, {}))
    for nd in (1, 2):
        for ax in ("xyz", "zyx", "yxz"):
            for c in ("node", "cell"):
                vn.defer("saved", "npz, %s in %d dimensions on %s" % (c, nd, ax[:nd]), "viscid.readers.numpy_binary.FileNumpyNPZ._parse",
                         check("npz", [("p", c, 0, None), ("q", c, 0, None)], LIST, var("time"), None, {"nd": nd, "axes": ax}))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")
