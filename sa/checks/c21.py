"""Value numbering of the compiled interpolation routines (viscid/cython/cycalc.pyx, cyfield.pyx,
cyamr.pyx): for every order of the point and the grid coordinates the value returned must be the
trilinear (or nearest) combination of the surrounding field values."""
from __future__ import annotations
import itertools
import numpy as _np
from .. import alg
from ..alg import P, B, var, fn
from ..interp import A, Obj, Native, symarr, arr, Unsupp, Raised, asint
from ..vn import VN, Order, differ, zero
from ..proj import AnalysisBroken

Y = "viscid.cython.cycalc."
N = 4
XS = [var("x%d" % d) for d in range(3)]


def ix(k):
    out = []
    for e in (k if isinstance(k, tuple) else (k,)):
        c = asint(e) if isinstance(e, P) else e
        if not isinstance(c, int):
            raise Unsupp("index that is not decided")
        out.append(c)
    return out


def grid(name, n):
    """array attribute read at decided indices"""
    def get(it, o, a, k):
        i = ix(a[0])
        if any(j < 0 or (n and j >= m) for j, m in zip(i, n or i)):
            raise OutOfBounds("%s%s is read outside its extent" % (name, i))
        return fn(name, tuple(P.of(j) for j in i))
    return Obj(model={"__getitem__": get})


class OutOfBounds(Exception):
    pass


def crd(m, d, j):
    return fn("crds", (P.of(m), P.of(d), P.of(j)))


def field(ns, m, uniform):
    """a compiled field whose extents are ns; component m"""
    return Obj(attrs={
        "n": list(ns), "nm1": [n - 1 for n in ns], "nm2": [n - 2 for n in ns],
        "xl": Obj(model={"__getitem__": lambda it, o, a, k: crd(ix(a[0])[0], ix(a[0])[1], 0)}),
        "xh": Obj(model={"__getitem__": lambda it, o, a, k: crd(ix(a[0])[0], ix(a[0])[1], ns[ix(a[0])[1]] - 1)}),
        "L": Obj(model={"__getitem__": lambda it, o, a, k: crd(ix(a[0])[0], ix(a[0])[1], ns[ix(a[0])[1]] - 1)
                        - crd(ix(a[0])[0], ix(a[0])[1], 0)}),
        "crds": grid("crds", (3, 3, max(ns))), "data": grid("data", (ns[0], ns[1], ns[2], 3)),
        "uniform_crds": 1 if uniform else 0})


# place of the point along one axis: (extent, segment or 'lo' / 'hi', fraction)
STATES = [(1, "lo", 0.2), (1, "hi", 0.2), (N, "lo", 0.3), (N, "hi", 0.3)] + \
    [(N, j, f) for j in range(N - 1) for f in (0.45, 0.55)] + [(2, 0, 0.45), (2, 0, 0.55), (2, "hi", 0.1), (2, "lo", 0.1)]


def order(states, uniform, m):
    envs = []
    for jit in (0.0, 0.11, -0.07):
        e = {}
        for d, (n, j, f) in enumerate(states):
            cs = [10.0 * d + k * (2.0 + 0.3 * jit) + (0 if uniform or k in (0, n - 1) else jit * (1 + 0.5 * (k % 4)))
                  for k in range(n)]
            for c in range(3):
                for k in range(n):
                    # other components live on other coordinates
                    e[crd(c, d, k).key] = cs[k] + 100.0 * ((c - m) % 3)
            f = f + 0.3 * jit * f
            x = cs[0] - 1 - f if j == "lo" else cs[-1] + 1 + f if j == "hi" else cs[j] + f * (cs[j + 1] - cs[j])
            e[XS[d].key] = x
        envs.append(e)
    return Order(*envs)


def weights(d, st, m):
    """[(index, weight)] along one axis"""
    n, j, f = st
    if n == 1 or j == "lo":
        return [(0, P.of(1))]
    if j == "hi":
        return [(n - 1, P.of(1))]
    t = (XS[d] - crd(m, d, j)) / (crd(m, d, j + 1) - crd(m, d, j))
    return [(j, 1 - t), (j + 1, t)]


def data(i, j, k, m):
    return fn("data", (P.of(i), P.of(j), P.of(k), P.of(m)))


def interp(vn, o):
    def flo(it, a, k):
        i = o.floor(a[0])
        return P.of(i) if i is not None else fn("floor", (P.of(a[0]),))
    it = vn.interp({"libc.math.floor": flo}, None)
    it.decider = o
    return it


def trilin(vn, states, m, uniform, start):
    it = interp(vn, order(states, uniform, m))
    idx = list(start)
    try:
        g = it.call_qual(Y + "_c_interp_trilin", [field([s[0] for s in states], m, uniform), m, list(XS), idx])
    except OutOfBounds as e:
        return str(e)
    want = P.of(0)
    for (i, a), (j, b), (k, c) in itertools.product(*[weights(d, s, m) for d, s in enumerate(states)]):
        want = want + a * b * c * data(i, j, k, m)
    return differ(g, want)


def nearest(vn, states, m, uniform, start):
    it = interp(vn, order(states, uniform, m))
    try:
        g = it.call_qual(Y + "_c_interp_nearest", [field([s[0] for s in states], m, uniform), m, list(XS),
                                                   list(start)])
    except OutOfBounds as e:
        return str(e)
    i = [0 if s[0] == 1 or s[1] == "lo" else s[0] - 1 if s[1] == "hi" else s[1] + (s[2] > 0.5) for s in states]
    return differ(g, data(i[0], i[1], i[2], m))


def name(states):
    return " ".join("%d:%s%s" % (n, j, "" if j in ("lo", "hi") else "-" if f < .5 else "+") for n, j, f in states)


# --- the loops over points and components ------------------------------------------
def loop(vn, kind, nr_comps, patches):
    log = []

    def value(it, a, k):
        m = ix(a[1])[0]
        pt = [P.of(x) for x in (a[2].a if isinstance(a[2], A) else a[2])]
        return fn("value", (P.of(var("patch")) if a[0] == "PATCH" else P.of(a[0].attrs["id"]), P.of(m)) + tuple(pt))

    amr = Obj(attrs={"nr_patches": patches, "active_patch": "PATCH"})

    def act(it, a, k):
        pt = [P.of(x) for x in (a[1].a if isinstance(a[1], A) else a[1])]
        p = Obj(attrs={"id": fn("containing", tuple(pt))})
        a[0].attrs["active_patch"] = p
        return p
    it = vn.interp({Y + "_c_interp_trilin": value, Y + "_c_interp_nearest": value,
                    "viscid.cython.cyamr.activate_patch": act}, None)
    pts = [[var("p%d_%d" % (i, j)) for j in range(3)] for i in range(3)]
    out = it.probe(Y[:-1], "def probe(amr, pts, res):\n    _py_interp_%s(amr, pts, res)\n    return res\n" % kind,
                   [amr, [list(p) for p in pts], symarr("uninitialised", (3, nr_comps))])
    want = [[fn("value", (P.of(var("patch")) if patches == 1 else fn("containing", tuple(p)), P.of(m)) + tuple(p))
             for m in range(nr_comps)] for p in pts]
    return differ(out, arr(want))


def patches(vn, where_, active, neighbors):
    """activate_patch on a row of three patches along x"""
    xl = [[0, 0, 0], [4, 0, 0], [5, 0, 0]]
    xh = [[4, 1, 1], [5, 1, 1], [9, 1, 1]]
    x = {0: (3.9, .9, .1), 1: (4.1, .1, .9), 2: (8.9, .9, .9), "1b": (4.9, .9, .9), "0b": (.1, .1, .1),
         "2b": (5.2, .1, .1), "left": (-4, .4, .3), "right": (17, .5, .2), "above": (4.6, 9, .5)}[where_]
    want = {0: 0, 1: 1, 2: 2, "0b": 0, "1b": 1, "2b": 2, "left": 0, "right": 2, "above": 1}[where_]
    nb = {0: [1], 1: [0, 2], 2: [1]} if neighbors else {0: [], 1: [], 2: []}
    ps = ["P0", "P1", "P2"]
    num = lambda t: arr([[P.of(v) for v in r] for r in t])
    xm = [[P.of(l + h) / 2 for l, h in zip(a, b)] for a, b in zip(xl, xh)]
    amr = Obj(attrs={"nr_patches": 3, "patches": ps, "active_patch": ps[active], "active_patch_index": active,
                     "xl": num(xl), "xh": num(xh), "xm": arr(xm),
                     "nr_neighbors": [len(nb[i]) for i in range(3)],
                     "neighbors": arr([[P.of(v) for v in (nb[i] + [-1, -1])[:2]] for i in range(3)])})
    it = vn.interp({}, None)
    from fractions import Fraction
    out = it.probe("viscid.cython.cyamr", "def probe(amr, x):\n    p = activate_patch(amr, x)\n"
                   "    return p, amr.active_patch, amr.active_patch_index\n",
                   [amr, [P.of(Fraction(str(v))) for v in x]])
    if not isinstance(out, tuple):
        raise Unsupp("control flow of activate_patch")
    i = asint(out[2]) if isinstance(out[2], P) else out[2]
    if out[1] != ps[want] or i != want:
        return "a point in patch %s selects patch %s / %s" % (want, out[1], out[2])
    return None


# --- public function ------------------------------------------------------------------
def public(vn, kind, method, nr_comps, wrap, func="interp"):
    calls = []

    def fill(which):
        def h(it, a, k):
            calls.append(which)
            if a[0] is not amr or a[1] != "POINTS":
                raise Unsupp("arguments of the loop")
            r = a[2]
            for i in _np.ndindex(r.a.shape):
                r.a[i] = fn(which, (P.of(i[0]), P.of(i[1])))
            return None
        return h
    wrapped = []

    def wrapf(it, o, a, k):
        wrapped.append((a[0], dict(k)))
        return "WRAPPED"

    def meth(f):
        return Obj(model={"__call__": lambda it, o, a, k: f(it, o, a, k)})
    seeds = Obj(model={"get_nr_points": meth(lambda it, o, a, k: 2), "iter_points": meth(lambda it, o, a, k: "POINTS"),
                       "wrap_field": meth(wrapf)}, attrs={"center": "node"})
    amr = Obj(attrs={"crd_dtype": "f8"})
    fld = Obj(attrs={"nr_sdims": 3, "nr_comps": nr_comps, "center": "node", "name": "f"})
    it = vn.interp({"viscid.seed.to_seeds": lambda it, a, k: seeds,
                    "viscid.cython.cyamr.make_cyamrfield": lambda it, a, k: amr,
                    Y + "_py_interp_trilin": fill("linear"), Y + "_py_interp_nearest": fill("nearest")}, None)
    it.attr_default = None
    args = [fld, seeds]
    kw = {"wrap": wrap}
    if func == "interp":
        if kind is not None:
            kw["kind"] = kind
        if method:
            kw["method"] = method
    r = it.call_qual(Y + func, args, kw)
    want = "nearest" if "nearest" in (method or kind or func).lower() else "linear"
    if calls != [want]:
        return "kind %s method %s runs the %s interpolation" % (kind, method, calls)
    if wrap:
        if r != "WRAPPED" or len(wrapped) != 1:
            return "does not return the wrapped field"
        r, k = wrapped[0]
        if nr_comps and (k.get("fldtype"), k.get("layout")) != ("vector", "interlaced"):
            return "a vector result is wrapped as %s" % k
        if not nr_comps and k.get("fldtype", "scalar") != "scalar":
            return "a scalar result is wrapped as %s" % k
    val = [[fn(want, (P.of(i), P.of(m))) for m in range(nr_comps or 1)] for i in range(2)]
    return differ(r, arr(val) if nr_comps else arr([v[0] for v in val]))


# --- construction of the compiled field -------------------------------------------------
def build(vn, uniform):
    ns = (2, 3, 4)
    crds = [[arr([var("X%d%d_%d" % (c, d, j)) for j in range(ns[d])]) for c in range(3)] for d in range(3)]

    def meth(v):
        return Native(lambda it, a, k: v, "model")

    def node(d):
        return arr([var("n%d_%d" % (d, j)) for j in range(ns[d] + 1)])

    def cell(d):
        return arr([var("c%d_%d" % (d, j)) for j in range(ns[d])])
    cr = Obj(attrs={"xl_nc": [var("xl%d" % d) for d in range(3)], "xh_nc": [var("xh%d" % d) for d in range(3)],
                    "xl_cc": [var("yl%d" % d) for d in range(3)], "xh_cc": [var("yh%d" % d) for d in range(3)],
                    "shape_nc": [n + 1 for n in ns], "shape_cc": list(ns),
                    "min_dx_nc": arr([var("dx%d" % d) for d in range(3)]),
                    "_TYPE": "uniform_cartesian" if uniform else "nonuniform_cartesian"})
    vf = Obj(attrs={"data": symarr("D", (2, 3, 4, 3)), "center": "cell", "sshape": list(ns), "crds": cr,
                    "get_crds_vector": meth([list(c) for c in crds]), "get_crds_nc": meth([node(d) for d in range(3)]),
                    "get_crds_cc": meth([cell(d) for d in range(3)])})
    z = lambda: [0, 0, 0]
    f = Obj(attrs={k: z() for k in ("n", "nm1", "nm2", "nr_nodes", "nr_cells", "xlnc", "xhnc", "xlcc", "xhcc", "dx")})
    it = vn.interp({}, None)
    e = {}
    for d in range(3):
        for c in range(3):
            for j in range(ns[d]):
                e[var("X%d%d_%d" % (c, d, j)).key] = j + 10.0 * d
    it.decider = Order(e)
    it.probe("viscid.cython.cyfield", "def probe(f, v):\n    return _init_cyfield(f, v, 'f8', 'f8')\n", [f, vf])
    g = f.attrs
    for d in range(3):
        if [asint(P.of(g[k][d])) for k in ("n", "nm1", "nm2")] != [ns[d], ns[d] - 1, ns[d] - 2]:
            return "extents of axis %d are stored as %s" % (d, [g[k][d] for k in ("n", "nm1", "nm2")])
        for c in range(3):
            lo, hi = var("X%d%d_%d" % (c, d, 0)), var("X%d%d_%d" % (c, d, ns[d] - 1))
            for nm, w in (("xl", lo), ("xh", hi), ("L", hi - lo)):
                m = differ(g[nm].a[c, d], w, "%s of component %d axis %d " % (nm, c, d))
                if m:
                    return m
            for j in range(ns[d]):
                m = differ(g["crds"].a[c, d, j], var("X%d%d_%d" % (c, d, j)), "coordinate ")
                if m:
                    return m
    if bool(g["uniform_crds"]) != uniform:
        return "uniform_crds is %s" % g["uniform_crds"]
    return differ(g["data"], vf.attrs["data"])


def run(ctx):
    vn = VN(ctx)
    for f in ("_c_interp_trilin", "_c_interp_nearest", "interp"):
        if ctx.proj.func(Y + f) is None:
            raise AnalysisBroken("%s not found" % f)
    mid = (N, 1, 0.2)
    combos = []
    for d in range(3):
        for s in STATES:
            st = [mid, mid, mid]
            st[d] = s
            combos.append(tuple(st))
    combos += [((N, "lo", .3), (N, 2, .7), (N, "hi", .3)), ((1, "lo", .2), (N, 0, .7), (2, 0, .2)),
               ((N, 2, .7), (1, "hi", .2), (N, "lo", .3)), ((N, 0, .2), (N, 2, .2), (1, "lo", .2)),
               ((2, 0, .7), (2, 0, .2), (2, 0, .7))]
    for t, (what, f) in enumerate((("trilinear", trilin), ("nearest", nearest))):
        q = Y + ("_c_interp_trilin" if f is trilin else "_c_interp_nearest")
        for i, st in enumerate(sorted(set(combos), key=str)):
            for uni in (False, True):
                m = (i + uni) % 3
                start = [(i + d) % 5 if d else (i * 3) % 7 for d in range(3)]
                for k, s in enumerate(([0, 0, 0], start, [3, 3, 3])):
                    if k != 1 and i % 4 and not uni:
                        pass
                    vn.check(what, "%s %s start %s" % (name(st), "uniform" if uni else "nonuniform", s), q,
                             lambda: f(vn, st, m, uni, s))
    # long axes: the search has to run from either end to the other
    big, pt = 40, (1, "lo", 0.2)
    for d in range(3):
        for j, f in ((0, .45), (19, .55), (big - 2, .3), ("lo", .3), ("hi", .3)):
            for s in (0, 20, big - 1, big + 7):
                st = [pt, pt, pt]
                st[d] = (big, j, f)
                vn.check("search", "%s start %d" % (name(st), s), Y + "_c_interp_trilin",
                         lambda: trilin(vn, tuple(st), d, False, [s] * 3))
    for kind in ("trilin", "nearest"):
        for nc in (1, 3):
            for np_ in (1, 4):
                vn.check("points", "%s %d components %d patches" % (kind, nc, np_), Y + "_py_interp_" + kind,
                         lambda: loop(vn, kind, nc, np_))
    for w in (0, 1, 2, "0b", "1b", "2b", "left", "right", "above"):
        for act in range(3):
            for nb in (True, False):
                vn.check("patch", "point %s active %d neighbors %s" % (w, act, nb),
                         "viscid.cython.cyamr.activate_patch", lambda: patches(vn, w, act, nb))
    for kind, method in ((None, None), ("linear", None), ("trilin", None), ("trilinear", None), ("nearest", None),
                         (" Nearest ", None), ("linear", "nearest"), ("nearest", "linear")):
        for nc in (0, 3):
            for wr in (True, False):
                vn.check("dispatch", "interp kind=%s method=%s comps=%d wrap=%s" % (kind, method, nc, wr),
                         Y + "interp", lambda: public(vn, kind, method, nc, wr))
    for f in ("interp_trilin", "interp_nearest"):
        for nc in (0, 3):
            vn.check("dispatch", "%s comps=%d" % (f, nc), Y + f, lambda: public(vn, None, None, nc, True, f))
    for uni in (True, False):
        vn.check("setup", "uniform" if uni else "nonuniform", "viscid.cython.cyfield._init_cyfield",
                 lambda: build(vn, uni))
    vn.finish()
    ctx.need(sum(1 for o in ctx.obligations if o[2] != "undecided"), 5, "decided obligations")
