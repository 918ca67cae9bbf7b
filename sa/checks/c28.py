"""Value numbering of the XDMF reader (viscid/readers/xdmf.py, hdf5.py): documents whose numbers are
symbols, with the arrays in the document or in a modelled HDF5 file, are read by the interpreted
reader; the tree of frames, grids, coordinates, fields, times and information must be the one
the document describes."""
from __future__ import annotations
import itertools
import numpy as _np
from ..alg import P, var
from ..disk import Disk
from ..interp import A, Raised, symarr, arr
from ..vn import VN, Order, differ
from .c14 import HOOKS

M = "viscid.readers"
X = "viscid.readers.xdmf.FileXDMF."
SRC = '''
def probe(fname, cls):
    def fields(g):
        return [[x, g[x].name, g[x].center, g[x].time, g[x].data, g[x].get_crds_nc(), g[x].crds.axes, g[x].nr_comps, g[x].crds.type,
                 g[x].find_info("note", None), g[x].find_info("mark", None), g[x].get_crds_cc()] for x in names]
    def fld(x):
        return [x.name, x.center, x.time, x.data, x.get_crds_nc(), x.crds.axes, x.nr_comps, x.crds.crdtype,
                x.find_info("note", None), x.find_info("mark", None), x.get_crds_cc()]
    def show(n):
        own = [n.name, n.time, n.find_info("note", None)]
        if isinstance(n, viscid.grid.Grid):
            return ["grid", own, [fld(x) for x in n.iter_fields()]]
        if isinstance(n, viscid.dataset.DatasetTemporal):
            return ["temporal", own, [show(c) for t, c in n.children]]
        return ["dataset", own, [show(c) for c in n.children]]
    f = viscid.readers.xdmf.FileXDMF(fname) if cls is None else viscid.readers.vfile.VFile.resolve_type(cls)(fname)
    top = [show(c) for c in f.children]
    return top
'''
SRC = SRC.replace(SRC[SRC.index("    def fields(g)"):SRC.index("    def fld(x)")], "")


class Doc:
    """builds the text of a document and what it describes"""
    def __init__(self, hdf):
        self.disk = Disk("/run")
        self.hdf = hdf
        self.n = 0
        self.disk.files["/run/docs/data.h5"] = {"data": {}, "attrs": {}, "groups": set()}

    def num(self, x):
        return str(self.disk.token(x))

    def item(self, a, name=None, fmt=None, dims=None):
        """a DataItem holding the array a (as stored, slowest index first)"""
        self.n += 1
        fmt = fmt or ("HDF" if self.hdf else "XML")
        nm = ' Name="%s"' % name if name else ""
        dims = ' Dimensions="%s"' % " ".join(str(x) for x in (a.a.shape if dims is None else dims))
        if fmt == "HDF":
            self.disk.files["/run/docs/data.h5"]["data"]["g/d%d" % self.n] = a.copy()
            body = "\n   %s:/g/d%d\n " % (("./data.h5", "data.h5", "/run/docs/data.h5")[self.n % 3], self.n)
        else:
            body = " ".join(self.num(x) for x in a.a.reshape(-1))
            if self.n % 2:
                body = "\n  " + body.replace(" ", "\n   ", 1) + " \n"
        return '<DataItem%s%s NumberType="Float" Precision="%d" Format="%s">%s</DataItem>' % (nm, dims, 4 + 4 * (self.n % 2), fmt, body)

    def write(self, body, path="/run/docs/doc.xdmf"):
        self.disk.files[path] = "<?xml version='1.0' ?>\n<Xdmf Version='2.0'><Domain>%s</Domain></Xdmf>" % body


def run(ctx):
    ctx.rule("grid", "a grid has the coordinates and fields its Topology, Geometry and Attribute elements give")
    ctx.rule("tree", "collections give the frames they list, each at its time, under the name and with the information it carries")
    ctx.rule("shared", "a grid without topology, geometry or time has those of the collection it is in")
    vn = VN(ctx, 3000000)
    NX = (3, 2, 4)

    def read(doc, path="docs/doc.xdmf", order=None, cls=None):
        it = vn.interp(dict(HOOKS, **doc.disk.hooks()))
        doc.disk.install(it)
        it.decider = Order(order or {})
        r = it.probe(M, SRC, [path, cls])
        vn.reached |= it.calls
        return r

    def nodes(tag):
        return [symarr(tag + x, n) for x, n in zip("xyz", NX)]
    order = {var("%s%s_%d" % (g, x, i)).key: i for g in "cd" for x in "xyz" for i in range(9)}
    order.update({var("t%d" % i).key: 10.0 + i for i in range(6)})

    # geometry -> (geometry element, topology element, coordinates)
    def vx(doc, tag="c", kind="VXVYVZ", perm=(0, 1, 2), low=False):
        cs = nodes(tag)
        nm = ["VX", "VY", "VZ"] if kind == "VXVYVZ" else ["X", "Y", "Z"]
        its = [doc.item(cs[i], nm[i].lower() if low and kind != "VXVYVZ" else nm[i]) for i in perm]
        return ('<Geometry GeometryType="%s">%s</Geometry>' % (kind, "".join(its)),
                '<Topology TopologyType="3DRectMesh" Dimensions="%s"/>' % " ".join(str(n) for n in NX[::-1]),
                [c.a for c in cs])

    def origin(doc, tag="c", kind="ORIGIN_DXDYDZ"):
        o, d = symarr("o" + tag, 3), symarr("d" + tag, 3)
        return ('<Geometry GeometryType="%s">%s%s</Geometry>' % (kind, doc.item(o, "Origin", "XML"), doc.item(d, "Spacing", "XML")),
                '<Topology TopologyType="3DCoRectMesh" Dimensions="%s"/>' % " ".join(str(n) for n in NX[::-1]),
                [_np.array([o.a[2 - i] + j * d.a[2 - i] for j in range(NX[i])], dtype=object) for i in range(3)])

    def elements(doc, tag="c"):
        g, t, c = origin(doc, tag)
        return g, t.replace("Dimensions", "NumberOfElements"), c

    def attribute(doc, name, center, nr=0, info="", src=""):
        sh = tuple(n - (center.lower() == "cell") for n in NX[::-1]) + ((nr,) if nr else ())
        v = symarr("v" + name + src, sh)
        w = _np.moveaxis(v.a, [2, 1, 0], [0, 1, 2])
        kind = "Vector" if nr else "Scalar"
        return ('<Attribute Name="%s" AttributeType="%s" Center="%s">%s%s</Attribute>' % (name, kind, center, doc.item(v), info),
                (name, center.lower(), w, nr))

    def compare(got, want):
        """want: (kind, name, time, note, children or fields)"""
        kind, name, time, note, kids = want
        if got[0] != kind:
            return "a %s instead of a %s" % (got[0], kind)
        if name is not None and got[1][0] != name:
            return "the name %r instead of %r" % (got[1][0], name)
        r = same(got[1][1], time, "time of %s" % (name or kind)) or same(got[1][2], note, "information")
        if r:
            return r
        if len(got[2]) != len(kids):
            return "%d instead of %d %s in %s" % (len(got[2]), len(kids), "fields" if kind == "grid" else "frames", name or kind)
        for g, k in zip(got[2], kids):
            r = compare(g, k) if kind != "grid" else field(g, k, time, note)
            if r:
                return r
        return None

    def same(g, w, what):
        if isinstance(w, (P, A)):
            if not isinstance(g, (P, A, int, float)):
                return "%s is %r" % (what, g)
            return differ(g, w, what + " ")
        return None if g == w else "%s is %r instead of %r" % (what, g, w)

    def field(g, k, time, note):
        (name, center, v, nr), cs, mark = k[0], k[1], k[2]
        if g[0] != name or g[1] != center or g[5] != list("xyz"):
            return "the field %r, %s centered, on %s" % (g[0], g[1], g[5])
        if g[6] != nr:
            return "%s components" % g[6]
        r = same(g[2], time, "time of field %s" % name) or same(g[8], note, "information of field") or same(g[9], mark, "information of the attribute")
        if r:
            return r
        r = differ(g[3], A(v), "values of %s " % name)
        for i in range(3):
            r = r or differ(g[4][i], A(cs[i]), "%s coordinates " % "xyz"[i])
            r = r or differ(g[10][i], arr([(P.of(a) + P.of(b)) / P.of(2) for a, b in zip(cs[i], cs[i][1:])]), "%s cell coordinates " % "xyz"[i])
        return r

    INFO = '<Information Name="%s" Value="%s" />'

    def one(hdf, geo, attrs, name="mesh", t=None, info=None):
        def thunk():
            doc = Doc(hdf)
            g, top, cs = geo(doc)
            ats = [attribute(doc, *a) for a in attrs]
            body = '<Grid Name="%s" GridType="Uniform">%s%s%s%s%s</Grid>' % (
                name, "" if t is None else '<Time Type="Single" Value="%s"/>' % doc.num(t), INFO % ("note", info) if info else "",
                top, g, "".join(a[0] for a in ats))
            doc.write(body)
            got = read(doc, order=order)
            if len(got) != 1:
                return "%d grids" % len(got)
            return compare(got[0], ("grid", name, t, info, [(a[1], cs, None) for a in ats]))
        return thunk
    geos = [("number of elements", elements), ("rectilinear", vx), ("rectilinear z first", lambda d: vx(d, perm=(2, 0, 1))),
            ("X_Y_Z", lambda d: vx(d, kind="X_Y_Z")), ("X_Y_Z lower case", lambda d: vx(d, kind="X_Y_Z", perm=(1, 2, 0), low=True)),
            ("uniform", origin), ("uniform mixed case", lambda d: origin(d, kind="Origin_DxDyDz")), ("VxVyVz", lambda d: (lambda r: (r[0].replace("VXVYVZ", "VxVyVz"),) + r[1:])(vx(d)))]
    sets = [("cell", [("rr", "Cell")]), ("node", [("rr", "Node")]), ("two", [("rr", "Cell"), ("pp", "Node")]),
            ("vector", [("b", "Cell", 3)]), ("vector and scalar", [("b", "Node", 3), ("rr", "cell")])]
    for (gn, geo), (sn, ats), hdf in itertools.product(geos, sets, (False, True)):
        vn.defer("grid", "%s, %s, %s" % (gn, sn, "HDF" if hdf else "XML"), X + ("_parse_geometry" if sn == "cell" else "_parse_attribute"), one(hdf, geo, ats))
    for tn, t in (("symbol", var("t0")), ("zero", P.of(0)), ("number", P.of(12.25)), ("negative", P.of(-3.5))):
        vn.defer("tree", "time of a single grid, %s" % tn, X + "_parse_time", one(True, vx, [("rr", "Cell")], t=t))
    vn.defer("tree", "information of a grid", X + "_inject_info", one(True, vx, [("rr", "Cell")], info="hello"))
    more(vn, read, Doc, vx, origin, attribute, compare, order, INFO)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


def more(vn, read, Doc, vx, origin, attribute, compare, order, INFO):
    T0 = [var("t%d" % i) for i in range(6)]
    coll = '<Grid %s GridType="Collection" CollectionType="%s">%s</Grid>'
    single = '<Time Type="Single" Value="%s"/>'
    uni = '<Grid Name="%s" GridType="Uniform">%s</Grid>'

    def frame(doc, i, own=None, geo=vx, spatial=False, name=None, info=None, bare="", inner=None, attrs=(("rr", "Cell"),), tag="c"):
        """a grid with values of its own, maybe inside a spatial collection"""
        g, top, cs = geo(doc, tag)
        ats = [attribute(doc, "%s" % a[0], *a[1:], src="%d" % i) for a in attrs]
        name = name or "mesh%d" % i
        body = ("" if "t" in bare else top) + ("" if "g" in bare else g) + "".join(a[0] for a in ats)
        if info:
            body = INFO % ("note", info) + body
        tm = single % doc.num(own) if own is not None else ""
        if spatial:
            text = coll % ('Name="part%d"' % i, "Spatial", tm + uni % (name, body))
        else:
            text = uni % (name, tm + body)
        return text, name, [(a[1], cs, None) for a in ats]

    def grid(name, t, kids, note=None):
        return ("grid", name, t, note, kids)

    def series(n, how, hdf, spatial, shuffle=None):
        """a temporal collection of n frames"""
        def thunk():
            doc = Doc(hdf)
            idx = list(shuffle or range(n))
            ts = [P.of(v) for v in how[1]] if how[0] == "numbers" else T0[:n]
            fr = [frame(doc, i, own=None if how[0] in ("list", "slab") else ts[i], spatial=spatial) for i in idx]
            head = ""
            if how[0] == "list":
                head = '<Time TimeType="List" Type="List">%s</Time>' % doc.item(arr([ts[i] for i in idx]), fmt="XML")
            if how[0] == "slab":
                t0, dt = var("t0"), var("t1")
                head = '<Time Type="HyperSlab">%s</Time>' % doc.item(arr([t0, dt, P.of(n)]), fmt="XML")
                ts = [t0 + i * dt for i in range(n)]
            doc.write(coll % ('Name="series"', "Temporal", head + "".join(f[0] for f in fr)))
            got = read(doc, order=order)
            if len(got) != 1:
                return "%d trees" % len(got)
            def one(i):
                f = fr[idx.index(i)]
                g = grid(f[1], ts[i], f[2])
                return ("dataset", "part%d" % i, ts[i], None, [g]) if spatial else g
            if got[0][0] != "temporal" or got[0][1][0] != "series":
                return "a %s %r" % (got[0][0], got[0][1][0])
            if len(got[0][2]) != n:
                return "%d instead of %d frames" % (len(got[0][2]), n)
            for i in range(n):
                r = compare(got[0][2][i], one(i))
                if r:
                    return "frame %d: %s" % (i, r)
        return thunk
    for spatial in (False, True):
        w = " of collections" if spatial else ""
        for n, perm in ((1, None), (2, None), (2, (1, 0)), (3, None), (3, (2, 0, 1)), (3, (1, 2, 0))):
            for k in ("own", "list"):
                vn.defer("tree", "series%s, %d frames, %s times%s" % (w, n, k, ", in the order %s" % (perm,) if perm else ""),
                         X + "_parse_grid", series(n, (k,), k == "own", spatial, perm))
        for n in (1, 2, 3):
            vn.defer("tree", "series%s, %d frames, times from a start and a step" % (w, n), X + "_parse_time", series(n, ("slab",), False, spatial))
        vn.defer("tree", "series%s that starts at zero" % w, X + "_parse_grid", series(3, ("numbers", (0, 5, 7.5)), True, spatial))
        vn.defer("tree", "series%s through zero" % w, X + "_parse_grid", series(3, ("numbers", (-4.5, 0, 3)), False, spatial, (2, 1, 0)))

    def shared(kind, bare, ntimes, geo, hdf):
        """n frames in a collection that holds the topology, geometry or time for them"""
        def thunk():
            doc = Doc(hdf)
            g, top, cs = geo(doc, "c")
            temporal = kind == "Temporal"
            fr = [frame(doc, i, own=T0[i] if temporal else None, bare=bare, geo=geo) for i in range(ntimes)]
            head = (top if "t" in bare else "") + (g if "g" in bare else "")
            if not temporal:
                head = single % doc.num(T0[2]) + head
            doc.write(coll % ('Name="all"', kind, head + "".join(f[0] for f in fr)))
            got = read(doc, order=order)
            if len(got) != 1:
                return "%d trees" % len(got)
            if len(got[0][2]) != ntimes:
                return "%d instead of %d frames" % (len(got[0][2]), ntimes)
            for i in range(ntimes):
                r = compare(got[0][2][i], grid(fr[i][1], T0[i] if temporal else T0[2], fr[i][2]))
                if r:
                    return "frame %d: %s" % (i, r)
        return thunk
    for gn, geo in (("rectilinear", vx), ("uniform", origin)):
        for hdf in (False, True):
            h = "HDF" if hdf else "XML"
            vn.defer("shared", "time of a collection, %s, %s" % (gn, h), X + "_parse_grid", shared("Spatial", "", 1, geo, hdf))
            for n in (1, 2, 3):
                vn.defer("shared", "topology and geometry of a series of %d, %s, %s" % (n, gn, h), X + "_parse_grid", shared("Temporal", "tg", n, geo, hdf))
            vn.defer("shared", "topology and geometry of a collection, %s, %s" % (gn, h), X + "_parse_grid", shared("Spatial", "tg", 1, geo, hdf))
            vn.defer("shared", "topology of a series, %s, %s" % (gn, h), X + "_parse_grid", shared("Temporal", "t", 2, geo, hdf))

    def several(hdf):
        """grids side by side in a document"""
        def thunk():
            doc = Doc(hdf)
            fr = [frame(doc, 0, own=T0[1], tag="c"), frame(doc, 1, own=None, geo=origin, tag="d"), frame(doc, 2, own=P.of(0), attrs=(("pp", "Node"),), info="third")]
            doc.write("".join(f[0] for f in fr))
            got = read(doc, order=order)
            if len(got) != 3:
                return "%d trees" % len(got)
            for i, (t, note) in enumerate(((T0[1], None), (None, None), (P.of(0), "third"))):
                r = compare(got[i], grid(fr[i][1], t, fr[i][2], note))
                if r:
                    return "grid %d: %s" % (i, r)
        return thunk
    for hdf in (False, True):
        vn.defer("tree", "three grids side by side %s" % ("HDF" if hdf else "XML"), X + "_parse_file", several(hdf))

    def informed(where, how):
        def thunk():
            doc = Doc(True)
            val = {"value": '<Information Name="%s" Value="told"/>', "text": '<Information Name="%s">told</Information>',
                   "item": '<Information Name="%s">' + doc.item(arr([var("w0"), var("w1")]), fmt="XML").replace("%", "%%") + '</Information>'}[how]
            want = arr([var("w0"), var("w1")]) if how == "item" else "told"
            g, top, cs = vx(doc)
            a = attribute(doc, "rr", "Cell", 0, val % "mark" if where == "attribute" else "")
            body = top + g + a[0]
            if where == "grid":
                body = val % "note" + body
            text = uni % ("mesh", single % doc.num(T0[0]) + body)
            text = coll % ('Name="all"', "Temporal", (val % "note" if where == "series" else "") + text)
            doc.write(text)
            got = read(doc, order=order)
            note, mark = (None if where == "attribute" else want), (want if where == "attribute" else None)
            return compare(got[0][2][0], grid("mesh", T0[0], [(a[1], cs, mark)], note))
        return thunk
    for where in ("attribute", "grid", "series"):
        for how in ("value", "text", "item"):
            vn.defer("tree", "information of the %s, as %s" % (where, how), X + "_parse_information", informed(where, how))

    def beside(kind, which):
        """information of one of two collections side by side"""
        def thunk():
            doc = Doc(True)
            fr = [frame(doc, i, own=T0[i], tag="ce"[i]) for i in range(2)]
            text = ""
            for i in range(2):
                text += coll % ('Name="all%d"' % i, kind, ('<Information Name="note" Value="told"/>' if i == which else "") + fr[i][0])
            doc.write(text)
            got = read(doc, order=order)
            for i in range(2):
                r = compare(got[i][2][0], grid(fr[i][1], T0[i], fr[i][2], "told" if i == which else None))
                if r:
                    return "collection %d: %s" % (i, r)
        return thunk
    for kind in ("Temporal", "Spatial"):
        for which in (0, 1):
            vn.defer("tree", "information of %s of two collections side by side, %s" % (which, kind), X + "_inject_info", beside(kind, which))

    def included(depth, folder):
        """frames in documents of their own, included by the one that is read"""
        def thunk():
            doc = Doc(True)
            fr = []
            for i in range(3):
                f = frame(doc, i, own=T0[i], spatial=True)
                fr.append(f)
                doc.write(f[0], "/run/docs/%sframe%d.xdmf" % (folder, i))
            xi = '<include xmlns="http://www.w3.org/2001/XInclude" href="%sframe%d.xdmf" xpointer="xpointer(//Xdmf/Domain/Grid)"/>'
            doc.write(coll % ('Name="series"', "Temporal", "".join(xi % (folder, i) for i in (0, 7, 2, 1))))
            got = read(doc, order=order)
            if len(got) != 1 or len(got[0][2]) != 3:
                return "%d trees, %d frames instead of 3" % (len(got), len(got[0][2]) if got else 0)
            for i in range(3):
                r = compare(got[0][2][i], ("dataset", "part%d" % i, T0[i], None, [grid(fr[i][1], T0[i], fr[i][2])]))
                if r:
                    return "frame %d: %s" % (i, r)
        return thunk
    vn.defer("tree", "frames in documents of their own", "viscid.compat._xdmf_include.include", included(1, ""))
    vn.defer("tree", "frames in documents in a folder", "viscid.compat._xdmf_include.include", included(1, "frames/"))

    def files(cls, names, spatial):
        """a list of documents is one series"""
        def thunk():
            doc = Doc(True)
            fr = []
            for i, n in enumerate(names):
                f = frame(doc, i, own=T0[i], spatial=spatial)
                fr.append(f)
                doc.write(f[0], "/run/docs/" + n)
            got = read(doc, path=["docs/" + n for n in names], order=order, cls=cls)
            if len(got) != 1 or got[0][0] != "temporal":
                return "%d trees, the first a %s" % (len(got), got[0][0] if got else None)
            if len(got[0][2]) != len(names):
                return "%d instead of %d frames" % (len(got[0][2]), len(names))
            for i in range(len(names)):
                g = grid(fr[i][1], T0[i], fr[i][2])
                r = compare(got[0][2][i], ("dataset", "part%d" % i, T0[i], None, [g]) if spatial else g)
                if r:
                    return "frame %d: %s" % (i, r)
        return thunk
    for cls, pat in (("GGCMXDMF", "run.3d.%06d.xdmf"), ("AthenaXDMF", "run.%04d.ath.xdmf")):
        for n in (2, 3):
            for sp in (False, True):
                vn.defer("tree", "%d documents as a series, %s%s" % (n, cls, ", in collections" if sp else ""),
                         {"G": "viscid.readers.ggcm_xdmf.GGCMFileXDMF._parse", "A": "viscid.readers.athena_xdmf.AthenaFileXDMF._parse"}[cls[0]],
                         files(cls, [pat % i for i in range(n)], sp))
