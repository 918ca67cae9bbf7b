"""Value numbering of fields whose data is still on disk (viscid/field.py, sliceutil.py): the source
is a data set that can only be read forward; every selection made before the field is loaded
must give what the same selection gives on the loaded, reflected, transposed values."""
from __future__ import annotations
import numpy as _np
from .. import alg
from ..alg import P, var
from ..interp import A, Obj, Native, symarr, arr, asint, Unsupp, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS, shape
from .c23 import INDEX, KEEP, REDUCE, nodes, centers, compare, source, S_

M = "viscid.field"
NS = (5, 6, 7)
SRC = '''
def probe(cc, d, v, w):
    crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", [(a, c) for a, c in zip("xyz", cc)])
    crds.reflect_axes = "%(refl)s"
    opts = dict(center="%(center)s", time=3.0, zyx_native=%(zyx)s)
    if isinstance(d[0], list):
        comps = [wrap_field(c, crds, name="A" + x, fldtype="scalar", **opts) for x, c in zip("xyz", d[0])]
        f = scalar_fields_to_vector(comps, name="A")
    else:
        f = wrap_field(d[0], crds, name="A", fldtype=d[1], layout=d[2], **opts)
    r = %(expr)s
    if not isinstance(r, Field):
        return [r, None, None, None, None, f.data, None, None]
    return [r.data, r.center, r.get_crds_nc(), r.get_crds_cc(), r.nr_comps, f.data, r.crds.axes, r.time]
'''
FAR = [
    ("f['x=1:100']", (S_(1, 100), S_(None), S_(None))),
    ("f['y=-100:2']", (S_(None), S_(-100, 2), S_(None))),
    ("f['z=100:0:-2']", (S_(None), S_(None), S_(100, 0, -2))),
    ("f['x=100:0:-2']", (S_(100, 0, -2), S_(None), S_(None))),
    ("f['x=3:-100:-1']", (S_(3, None, -1), S_(None), S_(None))),
]
BACK = [("f['%s=%s']" % (x, t), tuple(s if x == y else S_(None) for y in "xyz"))
        for x in "xz" for t, s in (("3::-2", S_(3, None, -2)), (":0:-2", S_(None, 0, -2)), ("::-3", S_(None, None, -3)),
                                   ("-1:0:-2", S_(-1, 0, -2)), ("1:-1:2", S_(1, -1, 2)), ("::3", S_(None, None, 3)),
                                   ("-3::2", S_(-3, None, 2)), (":3:2", S_(None, 3, 2)), ("-2::-3", S_(-2, None, -3)))]


class Backward(Exception):
    pass


def forward(k):
    """what a data set on disk accepts"""
    for s in k if isinstance(k, tuple) else (k,):
        if isinstance(s, slice):
            st = s.step if s.step is None else asint(s.step)
            if st is not None and st <= 0:
                raise Raised(["ValueError", "Exception"], "the data set is read with the step %s" % st)
        elif isinstance(s, (list, A)):
            v = [asint(x) for x in (s if isinstance(s, list) else s.a.reshape(-1))]
            if any(x is None for x in v) or any(p >= q for p, q in zip(v, v[1:])):
                raise Raised(["TypeError", "Exception"], "the data set is read in the order %s" % v)


def lazy(proj, a, hyper):
    """a data set on disk holding the values of the array"""
    def get(it, o, args, k):
        forward(args[0])
        return it.getitem(A(a.copy()), args[0])
    cls = proj.mods["viscid.readers.vfile"].classes["DataWrapper"]
    return Obj(cls, attrs={"_shape": a.shape, "_dtype": None, "_hypersliceable": hyper},
               model={"__array__": lambda it, o: A(a.copy()), "__getitem__": get,
                      "dtype": lambda it, o: it.getattr(A(a), "dtype"),
                      "__len__": lambda it, o, args, k: a.shape[0]})


def on_disk(proj, a, lay, refl, zyx, hyper, missing=None):
    """data argument whose reflected, transposed values are the array a"""
    def raw(v, space):
        flips = tuple(slice(None, None, -1) if i in space and "xyz"[space.index(i)] in refl else slice(None)
                      for i in range(v.ndim))
        v = v[flips]
        if zyx:
            ax = list(range(v.ndim))
            for p, q in zip(space, reversed(space)):
                ax[p] = q
            v = v.transpose(ax)
        if missing is not None:     # the extent of one element isn't stored
            v = v.squeeze(axis=space[2 - missing] if zyx else space[missing])
        return v
    if lay == "scalar":
        return (lazy(proj, raw(a.a, [0, 1, 2]), hyper), "scalar", "flat")
    if lay == "fields":
        return ([lazy(proj, raw(a.a[c], [0, 1, 2]), hyper) for c in range(3)], "vector", "flat")
    if lay == "flat":
        return (lazy(proj, raw(a.a, [1, 2, 3]), hyper), "vector", "flat")
    return (lazy(proj, raw(a.a, [0, 1, 2]), hyper), "vector", "interlaced")


def reflected(refl, ns):
    return [A(-c.a[::-1]) if x in refl else c for x, c in zip("xyz", nodes(ns))]


def run(ctx):
    ctx.rule("lazy", "a selection made before the data is loaded gives the values and coordinates it gives afterwards")
    ctx.rule("source", "a data set of an hdf5 file, its component and its transpose select what the array would")
    vn = VN(ctx, 6000000)
    proj = vn.proj if hasattr(vn, "proj") else ctx.proj

    def case(expr, sel, comp, center, lay, refl, zyx, hyper, ns=NS, missing=None):
        place = "node" if center == "node" else "cell"
        a, _ = source(place, "flat" if lay == "fields" else lay, ns)

        def thunk():
            it = vn.interp(dict(HOOKS), None)
            d = on_disk(proj, a, lay, refl, zyx, hyper, missing)
            cc = nodes(ns)
            r = it.probe(M, SRC % dict(expr=expr, center=center, refl=refl, zyx=zyx), [cc, d, var("v"), var("w")])
            vn.reached |= it.calls
            if isinstance(r[1], str):
                if r[1].lower() != center:
                    return "%s centered instead of %s" % (r[1], center)
                r[1] = place
            return compare(r, a, comp, "flat" if lay == "fields" else lay, sel, place, ns, reflected(refl, ns))
        vn.defer("lazy", "%s %s %s reflected=%s zyx=%s hyper=%s%s" % (expr, center, lay, refl or "none", zyx, hyper,
                 "" if missing is None else " plane of constant " + "xyz"[missing]), M + ".Field.slice", thunk)

    sels = [(e, s, None) for e, s in INDEX + KEEP + REDUCE + FAR + BACK if s is not None]
    vec = []
    for c, x in enumerate("xyz"):
        vec += [("f['%s']" % x, (S_(None),) * 3, c), ("f['%s, y=1:3']" % x, (S_(None), S_(1, 3), S_(None)), c),
                ("f['x=1, %s']" % x, (1, S_(None), S_(None)), c), ("f['%s, z=::-1, x=-2']" % x, (-2, S_(None), S_(None, None, -1)), c)]
    for center, lay, refl, zyx, hyper in (
            ("node", "scalar", "", True, True), ("cell", "scalar", "xy", True, True), ("cell", "scalar", "z", False, True),
            ("node", "scalar", "xyz", False, True), ("cell", "scalar", "xy", True, False),
            ("cell", "flat", "xy", True, True), ("node", "interlaced", "xy", True, True), ("cell", "interlaced", "", True, True),
            ("cell", "interlaced", "y", False, True), ("node", "flat", "x", False, True),
            ("face", "flat", "xy", True, True), ("edge", "interlaced", "xy", True, True), ("face", "scalar", "x", False, True),
            ("cell", "fields", "xy", True, True), ("cell", "fields", "", False, False), ("cell", "flat", "xy", True, False)):
        for expr, sel, comp in sels + (vec if lay != "scalar" else []):
            case(expr, sel, comp, center, lay, refl, zyx, hyper)
    for d in range(3):
        ns = tuple(2 if i == d else n for i, n in enumerate(NS))
        for lay in ("scalar", "flat", "interlaced"):
            for refl, zyx in (("", True), ("xy", True), ("xyz", False)):
                for e in range(3):
                    if e == d:
                        sl = [(0, "0"), (-1, "-1"), (S_(0, 1), "0:1"), (S_(None, None, -1), "::-1")]
                    else:
                        sl = [(1, "1"), (-1, "-1"), (S_(1, 3), "1:3"), (S_(3, 0, -2), "3:0:-2"), (S_(-2, None), "-2:")]
                    for v, t in sl:
                        for c in (None,) if lay == "scalar" else (None, 1):
                            case("f['%s%s=%s']" % ("" if c is None else "y, ", "xyz"[e], t),
                                 tuple(v if i == e else S_(None) for i in range(3)), c, "cell", lay, refl, zyx, True, ns, d)
    wrapper(vn)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


H5 = '''
def probe(kw, item):
    w = H5pyDataWrapper("f.h5", "b", **kw)
    %s
    return %s
'''


def wrapper(vn):
    """the data set of an hdf5 file, of which a component or the transpose may be taken"""
    cls = "viscid.readers.hdf5.H5pyDataWrapper."
    a = symarr("d", (3, 4, 5))
    four = symarr("d", (3, 4, 5, 2))

    def run(kw, base, expr, item=None, pre="pass"):
        def get(it, o, args, k):
            forward(args[0])
            return it.getitem(A(base.a.copy()), args[0])

        def direct(it, o, args, k):
            src = A(base.a.copy())
            s = k.get("source_sel")
            src = src if s is None else it.getitem(src, s)
            if args[0].dims != src.dims:
                raise Raised(["TypeError", "Exception"], "read_direct of %s into %s" % (src.dims, args[0].dims))
            args[0].a[...] = src.a
            return None
        dset = Obj(None, {}, model={"shape": lambda it, o: base.dims, "dtype": lambda it, o: it.getattr(base, "dtype"),
                                    "__getitem__": get, "read_direct": Native(lambda it, a_, k: direct(it, a_[0], a_[1:], k), "read_direct")})
        f = Obj(None, {}, model={})
        f.model["__enter__"] = Native(lambda it, a_, k: f, "__enter__")
        f.model["__exit__"] = Native(lambda it, a_, k: None, "__exit__")
        it = vn.interp({**HOOKS, "h5py.File": lambda it, a_, k: f,
                        "viscid.vutil.resolve_path": lambda it, a_, k: (dset, "b")}, None)
        r = it.probe("viscid.readers.hdf5", H5 % (pre, expr), [kw, item])
        vn.reached |= it.calls
        return r
    for base, kw, want in (
            (a, {}, a.a), (a, {"transpose": True}, a.a.T),
            (four, {"comp_dim": -1, "comp_idx": 1}, four.a[..., 1]), (four, {"comp_dim": 0, "comp_idx": 2}, four.a[2]),
            (four, {"comp_dim": -2, "comp_idx": 0}, four.a[:, :, 0]), (four, {"comp_dim": 1, "comp_idx": 3}, four.a[:, 3]),
            (four, {"comp_dim": -1, "comp_idx": 0, "transpose": True}, four.a[..., 0].T),
            (four, {"comp_dim": 0, "comp_idx": 1, "transpose": True}, four.a[1].T)):
        nm = " ".join("%s=%s" % x for x in kw.items()) or "whole"
        vn.defer("source", nm + " shape", cls + "shape", lambda kw=kw, base=base, want=want: differ(
            list(run(kw, base, "list(w.shape) + [len(w)]")), list(want.shape) + [want.shape[0]]))
        for i in range(2):
            vn.defer("source", nm + " array%s" % (" again" if i else ""), cls + "__array__", lambda kw=kw, base=base, want=want, i=i: differ(
                run(kw, base, "np.array(w)", None, "np.array(w)" if i else "pass"), A(want)))
        for t, s in (("range", (slice(1, None), slice(None), slice(0, 2))), ("plane", (slice(None), 1, slice(None))),
                     ("stride", (slice(None, None, 2), slice(1, 3), 1)), ("point", (1, 2, 1)), ("first", (slice(0, 2),)),
                     ("first two", (1, slice(1, 2))), ("index", 1), ("slice", slice(1, 3))):
            vn.defer("source", "%s %s" % (nm, t), cls + "__getitem__", lambda kw=kw, base=base, want=want, s=s: differ(
                run(kw, base, "w[item]", s), A(want[s]) if not (isinstance(s, tuple) and all(isinstance(x, int) for x in s)) else want[s]))
            vn.defer("source", "%s %s twice" % (nm, t), cls + "__getitem__", lambda kw=kw, base=base, want=want, s=s: differ(
                run(kw, base, "w[item]", s, "w[item]"), A(want[s]) if not (isinstance(s, tuple) and all(isinstance(x, int) for x in s)) else want[s]))
