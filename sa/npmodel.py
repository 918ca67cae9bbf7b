"""numpy / builtins / math / numexpr semantics for interp.py."""
from __future__ import annotations
import ast
from fractions import Fraction
import numpy as _np
from . import alg
from .alg import P, B
from .proj import Mod
from .interp import (A, MA, Obj, Native, Opaque, Unsupp, Raised, EXC, Ext, Fn, Dim, arr, scalar_arr,
                     elementwise, stack, concat, asint, isnum, elem, index, setindex, binop, compare,
                     join_elem, bcast, copy_val)
from .proj import Cls, Func

EXT = {}
CONST = {"numpy.pi": alg.pi, "math.pi": alg.pi, "numpy.newaxis": None, "numpy.inf": alg.var("inf"),
         "numpy.nan": alg.var("nan"), "numpy.e": alg.fn("exp", (1,)), "math.e": alg.fn("exp", (1,)),
         "numpy.Inf": alg.var("inf"), "numpy.NaN": alg.var("nan")}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def toarr(it, x):
    if isinstance(x, Obj) and x.model and "__array__" in x.model:
        return x.model["__array__"](it, x)
    if isinstance(x, Obj) and x.data is not None:
        return x.data
    if isinstance(x, Obj) and x.cls is not None and x.cls.find("__array__"):
        return it.call_fn(Fn(x.cls.find("__array__"), bound=x), [], {})
    if isinstance(x, (list, tuple)):
        return arr([toarr(it, e) if isinstance(e, Obj) else e for e in x])
    if isinstance(x, A):
        return x
    if isnum(x) or isinstance(x, (bool, B)):
        return scalar_arr(x)
    raise Unsupp("array from %r" % (x,))


def wrapper(xs):
    """the array-like object whose __array_wrap__ receives the result of a ufunc"""
    for x in xs:
        if isinstance(x, Obj) and x.cls is not None and not (x.model and "__binop__" in x.model) and \
                x.data is None and x.cls.find("__array_wrap__"):
            return x
    return None


def rewrap(it, w, r):
    if w is None:
        return r
    return it.call_fn(Fn(w.cls.find("__array_wrap__"), bound=w), [arr(r)], {})


# --- elementwise functions ---------------------------------------------------
def _un(name):
    def f(it, a, k):
        x = a[0]
        if isinstance(x, Obj) and x.model and "__map__" in x.model:
            return x.model["__map__"](it, x, lambda d: f(it, [d], {}))
        w = wrapper([x])
        if w is not None:
            return rewrap(it, w, f(it, [toarr(it, x)], {}))
        if not (isnum(x) or isinstance(x, (A, B, bool))):
            x = toarr(it, x)
        r = elementwise(lambda v: alg.fn(name, (P.of(v),)), x)
        if k.get("out") is not None:
            setindex(k["out"], (Ellipsis,), arr(r))
            return k["out"]
        return r
    return f


for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log", "log10", "log2", "sinh",
           "cosh", "tanh", "sign", "floor", "ceil", "rint", "trunc"):
    EXT["numpy." + _n] = _un(_n)
for _n, _m in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("asin", "arcsin"), ("acos", "arccos"),
               ("atan", "arctan"), ("exp", "exp"), ("log", "log"), ("floor", "floor"), ("ceil", "ceil"),
               ("log10", "log10")):
    EXT["math." + _n] = _un(_m)
    EXT["libc.math." + _n] = _un(_m)
    EXT["c." + _n] = _un(_m)
EXT["numpy.absolute"] = EXT["numpy.abs"] = EXT["numpy.fabs"] = EXT["builtins.abs"] = EXT["math.fabs"] = \
    EXT["libc.math.fabs"] = _un("abs")
EXT["numpy.sqrt"] = EXT["math.sqrt"] = EXT["libc.math.sqrt"] = _un("sqrt")
EXT["numpy.around"] = EXT["numpy.round"] = EXT["builtins.round"] = _un("rint")


def _lift(f):
    def g(it, a, k):
        if any(isinstance(x, Obj) and x.model and "__binop__" in x.model for x in a):
            raise Unsupp("numpy function on a field")
        w = wrapper(a)
        if w is not None:
            return rewrap(it, w, g(it, [toarr(it, x) if isinstance(x, Obj) else x for x in a], {}))
        xs = [x if isnum(x) or isinstance(x, (A, B, bool)) else toarr(it, x) for x in a]
        r = elementwise(f, *xs)
        if k.get("out") is not None:
            setindex(k["out"], (Ellipsis,), arr(r))
            return k["out"]
        return r
    return g


def _opfn(op):
    def f(it, a, k):
        w = wrapper(a)
        if w is not None:
            return rewrap(it, w, it.binop(op, *[toarr(it, x) if isinstance(x, Obj) else x for x in a[:2]]))
        r = it.binop(op, *[toarr(it, x) if isinstance(x, (list, tuple)) else x for x in a[:2]])
        if k.get("out") is not None:
            setindex(toarr(it, k["out"]), (Ellipsis,), toarr(it, r))
            return k["out"]
        return r
    return f


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"),
               ("power", "**"), ("mod", "%"), ("remainder", "%"), ("floor_divide", "//"),
               ("bitwise_and", "&"), ("bitwise_or", "|"), ("bitwise_xor", "^")):
    EXT["numpy." + _n] = _opfn(_o)
EXT["numpy.negative"] = lambda it, a, k: it.unary(a[0], lambda x: -P.of(x))
EXT["numpy.square"] = lambda it, a, k: it.binop("*", a[0], a[0])
EXT["numpy.reciprocal"] = lambda it, a, k: it.binop("/", 1, a[0])
EXT["operator.add"] = _opfn("+")
EXT["math.pow"] = EXT["libc.math.pow"] = EXT["builtins.pow"] = _opfn("**")
EXT["numpy.arctan2"] = EXT["math.atan2"] = EXT["libc.math.atan2"] = _lift(
    lambda y, x: atan2(P.of(y), P.of(x)))
EXT["numpy.hypot"] = EXT["math.hypot"] = _lift(lambda x, y: alg.sqrt(P.of(x) * x + P.of(y) * y))
EXT["numpy.maximum"] = EXT["numpy.fmax"] = _lift(lambda x, y: alg.fn("max", (x, y)))
EXT["numpy.minimum"] = EXT["numpy.fmin"] = _lift(lambda x, y: alg.fn("min", (x, y)))
EXT["numpy.deg2rad"] = EXT["numpy.radians"] = EXT["math.radians"] = _lift(
    lambda x: P.of(x) * alg.pi / 180)
EXT["numpy.rad2deg"] = EXT["numpy.degrees"] = EXT["math.degrees"] = _lift(
    lambda x: P.of(x) * 180 / alg.pi)
EXT["numpy.logical_and"] = _lift(lambda x, y: alg.band(tb(x), tb(y)))
EXT["numpy.logical_or"] = _lift(lambda x, y: alg.bor(tb(x), tb(y)))
EXT["numpy.logical_not"] = _lift(lambda x: alg.bnot(tb(x)))
EXT["numpy.invert"] = EXT["numpy.bitwise_not"] = _lift(
    lambda x: alg.bnot(x) if isinstance(x, (bool, B)) else -P.of(x) - 1)
EXT["numpy.isnan"] = EXT["math.isnan"] = EXT["libc.math.isnan"] = _lift(
    lambda x: False if P.of(x).const() is not None else B(("op", "isnan", (P.of(x),))))
EXT["numpy.isfinite"] = _lift(lambda x: B(("op", "isfinite", (P.of(x),))))
for _n, _o in (("less", "<"), ("greater", ">"), ("less_equal", "<="), ("greater_equal", ">="),
               ("equal", "=="), ("not_equal", "!=")):
    EXT["numpy." + _n] = _lift(lambda x, y, _o=_o: compare(_o, x, y))


def tb(x):
    if isinstance(x, (bool, B)):
        return x
    return alg.bnot(alg.eq(P.of(x), 0))


def atan2(y, x):
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None and (cy or cx):
        if cy == 0:
            return alg.ZERO if cx > 0 else alg.pi
        if cx == 0:
            return alg.pi / 2 if cy > 0 else -alg.pi / 2
    return alg.fn("arctan2", (y, x))


@ext("numpy.clip")
def _clip(it, a, k):
    x = a[0]
    lo = a[1] if len(a) > 1 else k.get("a_min")
    hi = a[2] if len(a) > 2 else k.get("a_max")
    if not (isnum(x) or isinstance(x, A)):
        x = toarr(it, x)

    def f(v, *b):
        v = P.of(v)
        i = 0
        if hi is not None:
            v = alg.fn("min", (v, b[i]))
            i += 1
        if lo is not None:
            v = alg.fn("max", (v, b[i]))
        return v
    xs = [x] + [b for b in (hi, lo) if b is not None]
    r = elementwise(f, *xs)
    o = a[3] if len(a) > 3 else k.get("out")
    if o is not None:
        setindex(o, (Ellipsis,), arr(r))
        return o
    return r


@ext("numpy.where")
def _where(it, a, k):
    if len(a) != 3:
        raise Unsupp("where with one argument")
    c, x, y = [v if isnum(v) or isinstance(v, (A, B, bool)) else toarr(it, v) for v in a]
    return elementwise(lambda p, u, v: join_elem(tb(p), u, v), c, x, y)


@ext("numpy.choose")
def _choose(it, a, k):
    c = toarr(it, a[0])
    xs = [toarr(it, x) for x in it.iterate(a[1])]
    if len(xs) != 2:
        raise Unsupp("choose")
    return elementwise(lambda p, u, v: join_elem(tb(p), v, u), c, xs[0], xs[1])


# --- construction ---------------------------------------------------------------
def dtype_of(a, k, pos):
    return k.get("dtype", a[pos] if len(a) > pos else None)


def asint_dtype(d):
    return isinstance(d, str) and d.lstrip("<>=|")[:1] in ("i", "u") or \
        isinstance(d, Ext) and d.name.split(".")[-1] in ("int", "int32", "int64", "intp", "integer", "uint8")


def cast(r, d):
    if asint_dtype(d):
        return elementwise(lambda x: x if isinstance(x, (bool, B)) else alg.fn("int", (P.of(x),)), r)
    if d == "bool" or isinstance(d, Ext) and d.name.split(".")[-1] in ("bool", "bool_"):
        return elementwise(tb, r)
    return r


def _asarray(copy):
    def f(it, a, k):
        x = a[0]
        if isinstance(x, Opaque):
            raise Unsupp("array of unknown value")
        src = toarr(it, x)
        d = dtype_of(a, k, 1)
        if asint_dtype(d):
            r = cast(src, d)
            return r if isinstance(r, A) else scalar_arr(r)
        c = k.get("copy", copy)
        r = src.copy() if c is True or isinstance(c, bool) and c else src
        nd = k.get("ndmin")
        nd = asint(nd) if nd is not None else 0
        while nd and r.ndim < nd:
            r = A(r.a[None], (None,) + r.sym)
        if r.ndim == 0:
            r.tag = "0d"
        if d is None and r.dtype is None and isinstance(x, (list, tuple, int)) and all_ints(x):
            if r is src and not isinstance(x, (list, tuple, int)):
                r = A(r.a, r.sym)
            r.dtype = "i8"
        elif d is None and isinstance(x, A) and r.dtype is None:
            r.dtype = x.dtype
        return r
    return f


def all_ints(x):
    if isinstance(x, (list, tuple)):
        return len(x) > 0 and all(all_ints(y) for y in x)
    return isinstance(x, int) and not isinstance(x, bool)


EXT["numpy.array"] = _asarray(True)
EXT["numpy.asarray"] = EXT["numpy.asanyarray"] = EXT["numpy.ascontiguousarray"] = \
    EXT["numpy.asfarray"] = EXT["numpy.require"] = _asarray(False)


@ext("numpy.atleast_1d")
def _al1(it, a, k):
    r = toarr(it, a[0])
    return A(r.a.reshape(1)) if r.ndim == 0 else r


@ext("numpy.atleast_2d")
def _al2(it, a, k):
    r = toarr(it, a[0])
    if r.ndim == 0:
        return A(r.a.reshape(1, 1))
    if r.ndim == 1:
        return A(r.a[None, :], (None,) + r.sym)
    return r


def shape_dims(it, s):
    """list of (int, sym)"""
    if isnum(s):
        s = [s]
    out = []
    for x in it.iterate(s):
        if isinstance(x, Dim):
            out.append((1, x))
            continue
        n = asint(x)
        if n is not None:
            out.append((n, None))
            continue
        if isinstance(x, P):
            d = dim_of(x)
            if d is not None:
                out.append((1, d))
                continue
        raise Unsupp("symbolic shape %r" % (x,))
    return out


def dim_of(p):
    c = p.t.get((), Fraction(0))
    rest = [(m, k) for m, k in p.t.items() if m]
    if len(rest) == 1 and rest[0][1] == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1 and \
            c.denominator == 1:
        at = alg._ATOMS[rest[0][0][0][0]]
        if at.kind == "var" and isinstance(at.name, str) and at.name.startswith("n_"):
            return Dim(at.name[2:], int(c))
    return None


def full(it, shape, v):
    ds = shape_dims(it, shape)
    out = _np.empty(tuple(n for n, _ in ds), dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = v
    return A(out, [s for _, s in ds])


EXT["numpy.zeros"] = lambda it, a, k: full(it, a[0] if a else k["shape"], zero_for(dtype_of(a, k, 1)))
EXT["numpy.ones"] = lambda it, a, k: full(it, a[0] if a else k["shape"], alg.ONE)
EXT["numpy.empty"] = lambda it, a, k: full(it, a[0] if a else k["shape"], alg.var("uninit"))
EXT["numpy.full"] = lambda it, a, k: full(it, a[0], elem(a[1] if len(a) > 1 else k["fill_value"]))


def zero_for(d):
    if d == "bool" or isinstance(d, Ext) and d.name.split(".")[-1] in ("bool", "bool_"):
        return False
    return alg.ZERO


def _like(v):
    def f(it, a, k):
        if isinstance(a[0], Obj) and a[0].model and "__map__" in a[0].model:
            return a[0].model["__map__"](it, a[0], lambda d: f(it, [d], {}))
        x = toarr(it, a[0])
        r = x.map(lambda e: v if v is not None else elem(a[1]))
        return r
    return f


EXT["numpy.zeros_like"] = _like(alg.ZERO)
EXT["numpy.ones_like"] = _like(alg.ONE)
EXT["numpy.empty_like"] = _like(alg.var("uninit"))
EXT["numpy.full_like"] = _like(None)


@ext("numpy.eye", "numpy.identity")
def _eye(it, a, k):
    n = asint(a[0])
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = alg.ONE if i == j else alg.ZERO
    return A(out)


@ext("numpy.diag")
def _diag(it, a, k):
    x = toarr(it, a[0])
    if any(s is not None for s in x.sym):
        raise Unsupp("diag")
    if x.ndim == 1:
        n = x.a.shape[0]
        out = full(it, [n, n], alg.ZERO)
        for i in range(n):
            out.a[i, i] = x.a[i]
        return out
    return A(_np.array([x.a[i, i] for i in range(min(x.a.shape))], dtype=object))


@ext("numpy.arange")
def _arange(it, a, k):
    xs = [asint(x) for x in a]
    if None in xs:
        if len(a) == 1 and isinstance(a[0], P):
            d = dim_of(a[0])
            if d is not None:
                o = _np.empty((1,), dtype=object)
                o[0] = alg.var(("idx", d.name))
                return A(o, [d])
        raise Unsupp("arange")
    return arr(list(range(*xs)))


@ext("numpy.linspace")
def _linspace(it, a, k):
    names = ["start", "stop", "num", "endpoint", "retstep", "dtype"]
    v = dict(zip(names, a))
    v.update(k)
    n = v.get("num", 50)
    ep = v.get("endpoint", True)
    if v.get("retstep"):
        raise Unsupp("retstep")
    s, e = v["start"], v["stop"]
    if isinstance(s, A) or isinstance(e, A):
        s, e = toarr(it, s), toarr(it, e)
        if s.ndim or e.ndim:
            raise Unsupp("linspace of arrays")
        s, e = s.a[()], e.a[()]
    s, e = P.of(s), P.of(e)
    if not isinstance(ep, bool):
        raise Unsupp("endpoint")
    ni = asint(n)
    if ni is not None:
        if ni == 1:
            return arr([s])
        step = (e - s) / (ni - 1 if ep else ni)
        return arr([s + step * i for i in range(ni)])
    d = dim_of(P.of(n))
    if d is None:
        d = Dim(alg.show(P.of(n)))
        div = P.of(n) - (1 if ep else 0)
    else:
        div = d.p - (1 if ep else 0)
    o = _np.empty((1,), dtype=object)
    o[0] = s + (e - s) * alg.var(("idx", d.name)) / div
    return A(o, [d])


# --- reductions -----------------------------------------------------------------
def axis_list(x, axis):
    if axis is None:
        return list(range(x.ndim))
    ax = [axis] if not isinstance(axis, (list, tuple)) else list(axis)
    out = []
    for q in ax:
        i = asint(q)
        if i is None:
            raise Unsupp("symbolic axis")
        if i >= x.ndim or i < -x.ndim:
            raise Raised(EXC["ValueError"], "axis out of range")
        out.append(i % x.ndim)
    return out


def reduce_(it, x, f, axis=None, keepdims=False):
    x = toarr(it, x)
    axs = sorted(axis_list(x, axis), reverse=True)
    for q in axs:
        if x.sym[q] is not None:
            raise Unsupp("reduction along a symbolic axis")
    a = x.a
    sym = list(x.sym)
    for q in axs:
        out = _np.empty(a.shape[:q] + a.shape[q + 1:], dtype=object)
        for i in _np.ndindex(out.shape):
            vals = [a[i[:q] + (n,) + i[q:]] for n in range(a.shape[q])]
            out[i] = f(vals)
        a = out
        del sym[q]
    if keepdims:
        for q in sorted(axs):
            a = _np.expand_dims(a, q)
            sym.insert(q, None)
    if a.ndim == 0:
        return a[()]
    return A(a, sym)


def _sum(vals):
    s = alg.ZERO
    for v in vals:
        s = s + (alg.phi(v, 1, 0) if isinstance(v, (bool, B)) else v)
    return s


def _prod(vals):
    s = alg.ONE
    for v in vals:
        s = s * v
    return s


def _red(f):
    def g(it, a, k):
        if isinstance(a[0], MA):
            raise Unsupp("reduction of a masked array")
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        if isinstance(a[0], Obj) and a[0].model and "__reduce__" in a[0].model:
            return a[0].model["__reduce__"](it, a[0], f, ax, k)
        return reduce_(it, a[0], f, ax, k.get("keepdims", False))
    return g


def _viaself(name, f):
    """numpy reductions call the method of the same name of an object that is no ndarray"""
    def g(it, a, k):
        x = a[0]
        if isinstance(x, Obj) and x.cls is not None and x.data is None and x.cls.find(name):
            k = dict(k)
            if len(a) > 1:
                k["axis"] = a[1]
            else:
                k.setdefault("axis", None)
            k.setdefault("out", None)
            return it.call_fn(Fn(x.cls.find(name), bound=x), [], k)
        return f(it, a, k)
    return g


EXT["numpy.sum"] = _red(_sum)
EXT["numpy.prod"] = EXT["numpy.product"] = _red(_prod)
EXT["numpy.mean"] = EXT["numpy.average"] = _red(lambda v: _sum(v) / len(v))
EXT["numpy.max"] = EXT["numpy.amax"] = _red(lambda v: alg.fn("max", tuple(v)))
EXT["numpy.min"] = EXT["numpy.amin"] = _red(lambda v: alg.fn("min", tuple(v)))
EXT["numpy.all"] = _red(lambda v: alg.band(*[tb(x) for x in v]))
EXT["numpy.any"] = _red(lambda v: alg.bor(*[tb(x) for x in v]))


def _std(v):
    m = _sum(v) / len(v)
    return alg.sqrt(_sum([(P.of(x) - m) ** 2 for x in v]) / len(v))


EXT["numpy.std"] = _red(_std)
EXT["numpy.ptp"] = _red(lambda v: alg.fn("max", tuple(v)) - alg.fn("min", tuple(v)))


for _n in ("sum", "prod", "mean", "max", "min", "all", "any", "std", "ptp"):
    EXT["numpy." + _n] = _viaself(_n, EXT["numpy." + _n])


@ext("numpy.cumsum")
def _cumsum(it, a, k):
    x = toarr(it, a[0])
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if x.ndim != 1 and ax is None:
        raise Unsupp("cumsum")
    q = axis_list(x, ax if ax is not None else 0)[0]
    if x.sym[q] is not None:
        raise Unsupp("cumsum along a symbolic axis")
    out = x.copy()
    m = _np.moveaxis(out.a, q, 0)
    for i in range(1, m.shape[0]):
        m[i] = m[i - 1] + m[i]
    return out


@ext("numpy.cumprod")
def _cumprod(it, a, k):
    x = toarr(it, a[0])
    if x.ndim != 1 or x.sym[0] is not None:
        raise Unsupp("cumprod")
    out = x.copy()
    for i in range(1, out.a.shape[0]):
        out.a[i] = out.a[i - 1] * out.a[i]
    return out


@ext("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(it, a, k):
    x = toarr(it, a[0])
    o = k.get("ord", a[1] if len(a) > 1 else None)
    if o not in (None, 2):
        raise Unsupp("norm order")
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    return reduce_(it, x, lambda v: alg.sqrt(_sum([y * y for y in v])), ax, k.get("keepdims", False)) \
        if ax is not None or x.ndim == 1 else \
        alg.sqrt(P.of(reduce_(it, it.binop("*", x, x), _sum)))


@ext("numpy.diff")
def _diff(it, a, k):
    x = toarr(it, a[0])
    ax = axis_list(x, k.get("axis", a[2] if len(a) > 2 else -1))[0]
    pre = (slice(None),) * ax
    return it.binop("-", index(x, pre + (slice(1, None),)), index(x, pre + (slice(None, -1),)))


# --- linear algebra ----------------------------------------------------------------
def contract(x, y, ix, iy):
    """sum over axis ix of x and iy of y; remaining axes outer product"""
    if x.sym[ix] is not None or y.sym[iy] is not None:
        raise Unsupp("product along a symbolic axis")
    if x.a.shape[ix] != y.a.shape[iy]:
        raise Raised(EXC["ValueError"], "shapes not aligned")
    xa = _np.moveaxis(x.a, ix, -1)
    ya = _np.moveaxis(y.a, iy, 0)
    xs = [s for n, s in enumerate(x.sym) if n != ix]
    ys = [s for n, s in enumerate(y.sym) if n != iy]
    out = _np.empty(xa.shape[:-1] + ya.shape[1:], dtype=object)
    n = xa.ndim - 1
    for i in _np.ndindex(out.shape):
        s = alg.ZERO
        for q in range(xa.shape[-1]):
            s = s + P.of(xa[i[:n] + (q,)]) * P.of(ya[(q,) + i[n:]])
        out[i] = s
    if out.ndim == 0:
        return out[()]
    return A(out, xs + ys)


@ext("numpy.dot")
def _dot(it, a, k):
    x, y = toarr(it, a[0]), toarr(it, a[1])
    if x.ndim == 0 or y.ndim == 0:
        return it.binop("*", x, y)
    r = contract(x, y, x.ndim - 1, max(0, y.ndim - 2))
    return r


@ext("numpy.inner")
def _inner(it, a, k):
    x, y = toarr(it, a[0]), toarr(it, a[1])
    return contract(x, y, x.ndim - 1, y.ndim - 1)


@ext("numpy.outer")
def _outer(it, a, k):
    x, y = toarr(it, a[0]), toarr(it, a[1])
    return it.binop("*", A(x.a.reshape(-1, 1), (x.sym[0], None)), y)


@ext("numpy.matmul")
def _matmul(it, a, k):
    x, y = toarr(it, a[0]), toarr(it, a[1])
    if x.ndim <= 2 and y.ndim <= 2:
        return _dot(it, [x, y], {})
    return _einsum_core([("...ij", x), ("...jk", y)], "...ik")


def _einsum_core(ops, out):
    letters = {}
    bsyms = None
    # expand ellipsis
    nb = 0
    for s, x in ops:
        n = len(s.replace("...", ""))
        if "..." in s:
            nb = max(nb, x.ndim - n)
    ext_l = "ABCDEFGH"[:nb]
    specs = []
    for s, x in ops:
        if "..." in s:
            m = x.ndim - len(s.replace("...", ""))
            s = s.replace("...", ext_l[nb - m:])
        if len(s) != x.ndim:
            raise Raised(EXC["ValueError"], "einsum operand")
        specs.append((s, x))
    out = out.replace("...", ext_l)
    for s, x in specs:
        for n, ch in enumerate(s):
            d = x.sym[n] if x.sym[n] is not None else x.a.shape[n]
            if ch in letters and letters[ch] != d and letters[ch] != 1 and d != 1:
                raise Raised(EXC["ValueError"], "einsum shapes")
            if ch not in letters or letters[ch] == 1:
                letters[ch] = d
    summed = [ch for ch in letters if ch not in out]
    for ch in summed:
        if isinstance(letters[ch], Dim):
            raise Unsupp("einsum over a symbolic axis")
    oshape = [1 if isinstance(letters[c], Dim) else letters[c] for c in out]
    res = _np.empty(oshape, dtype=object)
    sshape = [letters[c] for c in summed]
    for i in _np.ndindex(*oshape) if oshape else [()]:
        pos = dict(zip(out, i))
        tot = alg.ZERO
        for j in _np.ndindex(*sshape) if sshape else [()]:
            pos.update(zip(summed, j))
            t = alg.ONE
            for s, x in specs:
                t = t * P.of(x.a[tuple(min(pos[c], x.a.shape[n] - 1) for n, c in enumerate(s))])
            tot = tot + t
        res[i] = tot
    if res.ndim == 0:
        return res[()]
    return A(res, [letters[c] if isinstance(letters[c], Dim) else None for c in out])


@ext("numpy.einsum")
def _einsum(it, a, k):
    if not isinstance(a[0], str):
        raise Unsupp("einsum")
    spec = a[0].replace(" ", "")
    ins, _, out = spec.partition("->")
    names = ins.split(",")
    if "->" not in spec:
        body = "".join(names).replace("...", "")
        out = ("..." if "..." in ins else "") + "".join(sorted(c for c in set(body) if body.count(c) == 1))
    return _einsum_core(list(zip(names, [toarr(it, x) for x in a[1:]])), out)


@ext("numpy.tensordot")
def _tensordot(it, a, k):
    ax = k.get("axes", a[2] if len(a) > 2 else 2)
    x, y = toarr(it, a[0]), toarr(it, a[1])
    if isinstance(ax, (list, tuple)):
        p, q = ax
        p = asint(p[0]) if isinstance(p, (list, tuple)) else asint(p)
        q = asint(q[0]) if isinstance(q, (list, tuple)) else asint(q)
        if isinstance(ax[0], (list, tuple)) and len(ax[0]) != 1:
            raise Unsupp("tensordot")
        return contract(x, y, p % x.ndim, q % y.ndim)
    if asint(ax) == 1:
        return contract(x, y, x.ndim - 1, 0)
    raise Unsupp("tensordot")


@ext("numpy.cross")
def _cross(it, a, k):
    x, y = toarr(it, a[0]), toarr(it, a[1])
    ax = k.get("axis", None)
    xa = k.get("axisa", -1) if ax is None else ax
    ya = k.get("axisb", -1) if ax is None else ax
    oc = k.get("axisc", -1) if ax is None else ax
    xs = [take(x, xa, i) for i in range(3)]
    ys = [take(y, ya, i) for i in range(3)]
    b = it.binop
    comps = []
    for i in range(3):
        j, m = (i + 1) % 3, (i + 2) % 3
        comps.append(b("-", b("*", xs[j], ys[m]), b("*", xs[m], ys[j])))
    if not isinstance(comps[0], A):
        return arr(comps)
    return stack([c if isinstance(c, A) else scalar_arr(c) for c in comps],
                 oc if asint(oc) >= 0 else comps[0].ndim)


def take(x, ax, i):
    ax = asint(ax) % x.ndim
    if x.sym[ax] is not None or i >= x.a.shape[ax]:
        raise Unsupp("component axis")
    return index(x, (slice(None),) * ax + (i,))


@ext("numpy.linalg.inv")
def _inv(it, a, k):
    x = toarr(it, a[0])
    if x.dims != (3, 3):
        raise Unsupp("inverse")
    m = x.a
    det = _det3(m)
    out = _np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            r = [q for q in range(3) if q != j]
            c = [q for q in range(3) if q != i]
            mn = m[r[0], c[0]] * m[r[1], c[1]] - m[r[0], c[1]] * m[r[1], c[0]]
            out[i, j] = (mn if (i + j) % 2 == 0 else -mn) / det
    return A(out)


def _det3(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1])
            - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


@ext("numpy.linalg.det")
def _det(it, a, k):
    x = toarr(it, a[0])
    if x.dims[-2:] != (3, 3) or any(q is not None for q in x.sym):
        raise Unsupp("determinant")
    if x.ndim == 2:
        return _det3(x.a)
    out = _np.empty(x.a.shape[:-2], dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = _det3(x.a[i])
    return A(out)


@ext("numpy.trace")
def _trace(it, a, k):
    x = toarr(it, a[0])
    if x.ndim != 2:
        return attr_trace(it, x, k)
    return _sum([x.a[i, i] for i in range(min(x.a.shape))])


def attr_trace(it, x, k):
    a1, a2 = asint(k.get("axis1", 0)) % x.ndim, asint(k.get("axis2", 1)) % x.ndim
    m = _np.moveaxis(x.a, (a1, a2), (0, 1))
    sym = [s for n, s in enumerate(x.sym) if n not in (a1, a2)]
    out = m[0, 0]
    for i in range(1, m.shape[0]):
        out = out + m[i, i]
    return A(out, sym) if isinstance(out, _np.ndarray) else out


# --- shape manipulation ---------------------------------------------------------------
def xreshape(it, x, shape):
    shape = list(shape)
    want = []
    for s in shape:
        if isinstance(s, Dim):
            want.append(s)
            continue
        n = asint(s)
        if n is not None:
            want.append(n)
        elif isinstance(s, P) and dim_of(s) is not None:
            want.append(dim_of(s))
        else:
            raise Unsupp("reshape to symbolic shape %s" % (shape,))
    if all(s is None for s in x.sym) and not any(isinstance(w, Dim) for w in want):
        try:
            r = x.a.reshape([w for w in want])
        except ValueError:
            e = Raised(EXC["ValueError"], "cannot reshape %s into %s" % (x.dims, tuple(want)))
            e.explicit = True
            raise e
        return A(r, ro=x.ro, dtype=x.dtype)
    # symbolic: the sequence of non unit extents has to be kept
    src = [d for d in x.dims if d != 1]
    w2 = []
    srci = list(src)
    if -1 in want:
        i = want.index(-1)
        before = [d for d in want[:i] if d != 1]
        after = [d for d in want[i + 1:] if d != 1]
        if srci[:len(before)] != before or (after and srci[len(srci) - len(after):] != after):
            raise Unsupp("reshape mixes axes")
        mid = srci[len(before):len(srci) - len(after)]
        if len(mid) == 0:
            want[i] = 1
        elif len(mid) == 1:
            want[i] = mid[0]
        elif all(isinstance(m, Dim) for m in mid):
            # flattening several symbolic axes into one
            d = Dim("*".join(repr(m) for m in mid))
            keep = [d2 for d2 in x.dims if d2 not in mid]
            out = x.a.reshape([1 if isinstance(w, Dim) or w == -1 else w for w in want])
            return A(out, [d if k == i else (w if isinstance(w, Dim) else None)
                           for k, w in enumerate(want)], ro=True)
        else:
            raise Unsupp("reshape mixes axes")
    if [d for d in want if d != 1] != src:
        # splitting a flattened axis
        raise Unsupp("reshape %s -> %s" % (x.dims, want))
    out = x.a.reshape([1 if isinstance(w, Dim) else w for w in want])
    return A(out, [w if isinstance(w, Dim) else None for w in want], ro=x.ro)


@ext("numpy.reshape")
def _reshape(it, a, k):
    s = a[1]
    return xreshape(it, toarr(it, a[0]), it.iterate(s) if isinstance(s, (list, tuple, A)) else [s])


def xtranspose(x, axes=None):
    if axes is None:
        axes = list(range(x.ndim))[::-1]
    return A(x.a.transpose(axes), [x.sym[i] for i in axes], ro=x.ro, dtype=x.dtype)


def own(it, x, name):
    """the method of that name of an object that is no ndarray (numpy calls it)"""
    if isinstance(x, Obj) and x.cls is not None and x.data is None and x.cls.find(name):
        return Fn(x.cls.find(name), bound=x)
    return None


@ext("numpy.transpose")
def _transpose(it, a, k):
    m = own(it, a[0], "transpose")
    if m is not None:
        return it.call_fn(m, [k.get("axes", a[1] if len(a) > 1 else None)], {})
    ax = k.get("axes", a[1] if len(a) > 1 else None)
    return xtranspose(toarr(it, a[0]), None if ax is None else [asint(q) for q in it.iterate(ax)])


@ext("numpy.swapaxes")
def _swap(it, a, k):
    m = own(it, a[0], "swapaxes")
    if m is not None:
        return it.call_fn(m, list(a[1:]), k)
    x = toarr(it, a[0])
    ax = list(range(x.ndim))
    i, j = asint(a[1]) % x.ndim, asint(a[2]) % x.ndim
    ax[i], ax[j] = ax[j], ax[i]
    return xtranspose(x, ax)


@ext("numpy.rollaxis")
def _rollaxis(it, a, k):
    x = toarr(it, a[0])
    i = asint(a[1])
    j = asint(a[2] if len(a) > 2 else k.get("start", 0))
    i += x.ndim if i < 0 else 0
    j += x.ndim if j < 0 else 0
    ax = [q for q in range(x.ndim) if q != i]
    ax.insert(j - 1 if i < j else j, i)
    return xtranspose(x, ax)


@ext("numpy.moveaxis")
def _moveaxis(it, a, k):
    x = toarr(it, a[0])
    i, j = asint(a[1]) % x.ndim, asint(a[2]) % x.ndim
    ax = [q for q in range(x.ndim) if q != i]
    ax.insert(j, i)
    return xtranspose(x, ax)


@ext("numpy.expand_dims")
def _expand(it, a, k):
    x = toarr(it, a[0])
    ax = asint(a[1] if len(a) > 1 else k["axis"])
    if ax < 0:
        ax += x.ndim + 1
    return A(_np.expand_dims(x.a, ax), x.sym[:ax] + (None,) + x.sym[ax:], ro=x.ro)


@ext("numpy.squeeze")
def _squeeze(it, a, k):
    x = toarr(it, a[0])
    keep = [i for i in range(x.ndim) if x.sym[i] is not None or x.a.shape[i] != 1]
    if k.get("axis") is not None:
        ax = axis_list(x, k["axis"])
        keep = [i for i in range(x.ndim) if i not in ax]
    return A(x.a.reshape([x.a.shape[i] for i in keep]), [x.sym[i] for i in keep], ro=x.ro)


@ext("numpy.ravel")
def _ravel(it, a, k):
    return xreshape(it, toarr(it, a[0]), [-1])


@ext("numpy.stack")
def _stack(it, a, k):
    return stack([toarr(it, x) for x in it.iterate(a[0])], asint(k.get("axis", a[1] if len(a) > 1 else 0)))


@ext("numpy.concatenate")
def _concat(it, a, k):
    return concat([toarr(it, x) for x in it.iterate(a[0])],
                  asint(k.get("axis", a[1] if len(a) > 1 else 0)))


@ext("numpy.insert")
def _insert(it, a, k):
    kw = dict(zip(("arr", "obj", "values", "axis"), a))
    kw.update(k)
    x = toarr(it, kw["arr"])
    if any(q is not None for q in x.sym) or kw.get("axis") is None and x.ndim != 1:
        raise Unsupp("insert into a grid")
    ax = asint(kw.get("axis") or 0) % x.ndim
    i = asint(kw["obj"])
    n = x.a.shape[ax]
    if i < 0:
        i += n
    if not 0 <= i <= n:
        raise Unsupp("insert out of bounds")
    v = toarr(it, kw["values"])
    va = _np.asarray(v.a, dtype=object)
    if va.ndim < x.ndim:
        va = va.reshape((1,) * (x.ndim - va.ndim) + va.shape)
    va = _np.moveaxis(va, 0, ax)
    shp = list(x.a.shape)
    shp[ax] = va.shape[ax]
    va = _np.broadcast_to(va, shp)
    lo = [slice(None)] * x.ndim
    hi = list(lo)
    lo[ax], hi[ax] = slice(0, i), slice(i, None)
    return A(_np.concatenate([x.a[tuple(lo)], va, x.a[tuple(hi)]], axis=ax))


@ext("numpy.vstack")
def _vstack(it, a, k):
    xs = [toarr(it, x) for x in it.iterate(a[0])]
    xs = [A(x.a[None, :], (None,) + x.sym) if x.ndim == 1 else x for x in xs]
    return concat(xs, 0)


@ext("numpy.hstack")
def _hstack(it, a, k):
    xs = [toarr(it, x) for x in it.iterate(a[0])]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)


@ext("numpy.column_stack")
def _colstack(it, a, k):
    xs = [toarr(it, x) for x in it.iterate(a[0])]
    xs = [A(x.a[:, None], x.sym + (None,)) if x.ndim == 1 else x for x in xs]
    return concat(xs, 1)


@ext("numpy.append")
def _append(it, a, k):
    return concat([toarr(it, a[0]), A(toarr(it, a[1]).a.reshape(-1))], 0)


@ext("numpy.repeat")
def _repeat(it, a, k):
    x = toarr(it, a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if ax is None:
        x = A(x.a.reshape(-1)) if all(s is None for s in x.sym) else None
        ax = 0
    if x is None:
        raise Unsupp("repeat")
    n = asint(a[1])
    ax = asint(ax) % x.ndim
    if n is None or x.sym[ax] is not None:
        raise Unsupp("repeat")
    return A(_np.repeat(x.a, n, axis=ax), x.sym)


@ext("numpy.tile")
def _tile(it, a, k):
    x = toarr(it, a[0])
    r = a[1]
    reps = [asint(q) for q in (it.iterate(r) if isinstance(r, (list, tuple)) else [r])]
    if None in reps or any(s is not None for s in x.sym):
        raise Unsupp("tile")
    return A(_np.tile(x.a, reps))


@ext("numpy.broadcast_to")
def _bto(it, a, k):
    x = toarr(it, a[0])
    z = full(it, a[1], alg.ZERO)
    arrs, sym = bcast(z, x)
    return A(arrs[1].copy(), sym)


@ext("numpy.broadcast_arrays")
def _barr(it, a, k):
    xs = [toarr(it, x) for x in a]
    arrs, sym = bcast(*xs)
    return [A(q.copy(), sym) for q in arrs]


@ext("numpy.meshgrid")
def _meshgrid(it, a, k):
    xs = [toarr(it, x) for x in a]
    ij = k.get("indexing", "xy") == "ij"
    n = len(xs)
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    sym = [xs[q].sym[0] for q in order]
    shp = [xs[q].a.shape[0] for q in order]
    out = []
    for q, x in enumerate(xs):
        o = _np.empty(shp, dtype=object)
        pos = order.index(q)
        for i in _np.ndindex(*shp):
            o[i] = x.a[i[pos]]
        out.append(A(o, sym))
    return out


@ext("numpy.roll")
def _roll(it, a, k):
    x = toarr(it, a[0])
    if any(s is not None for s in x.sym):
        raise Unsupp("roll")
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    return A(_np.roll(x.a, asint(a[1]), axis=None if ax is None else asint(ax)))


@ext("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(it, a, k):
    raise Unsupp("flip")


@ext("numpy.copy")
def _copy(it, a, k):
    return toarr(it, a[0]).copy()


@ext("numpy.shape")
def _shape(it, a, k):
    return toarr(it, a[0]).shape


@ext("numpy.ndim")
def _ndim(it, a, k):
    return toarr(it, a[0]).ndim


@ext("numpy.array_equal")
def _array_equal(it, a, k):
    if toarr(it, a[0]).dims != toarr(it, a[1]).dims:
        return False
    p, q = _numbers(it, a[0]), _numbers(it, a[1])
    if p is None or q is None:
        raise Unsupp("closeness test")
    return p == q


def _close(it, a, k):
    x, y = [toarr(it, q) if isinstance(q, (list, tuple)) else q for q in a[:2]]
    rtol = k.get("rtol", a[2] if len(a) > 2 else Fraction(1, 10 ** 5))
    atol = k.get("atol", a[3] if len(a) > 3 else Fraction(1, 10 ** 8))
    return elementwise(lambda p, q: alg.le(alg.fabs(P.of(p) - P.of(q)),
                                           P.of(atol) + P.of(rtol) * alg.fabs(q)), x, y)


@ext("numpy.isclose")
def _isclose(it, a, k):
    return _close(it, a, k)


@ext("numpy.allclose")
def _allclose2(it, a, k):
    r = _close(it, a, k)
    if isinstance(r, A):
        if any(q is not None for q in r.sym):
            raise Unsupp("closeness of a grid")
        return alg.band(*r.a.reshape(-1))
    return r


@ext("numpy.argmax")
def _argmax(it, a, k):
    return _argbest(it, a, k, 1)


@ext("numpy.argmin")
def _argmin(it, a, k):
    return _argbest(it, a, k, -1)


def _masked(less):
    def f(it, a, k):
        x, v = toarr(it, a[0]), P.of(a[1])
        r = MA(x.a, x.sym)
        r.mask = _np.zeros(x.a.shape, dtype=bool)
        if isinstance(x, MA):
            r.mask |= x.mask
        for i in _np.ndindex(x.a.shape):
            r.mask[i] = r.mask[i] or truth(it, alg.lt(P.of(x.a[i]), v) if less else alg.lt(v, P.of(x.a[i])))
        return r
    return f


def truth(it, b):
    if isinstance(b, B) and it.decider is not None:
        b = it.decider(b)
    if not isinstance(b, bool):
        raise Unsupp("order of the inputs")
    return b


EXT["numpy.ma.masked_less"] = _masked(True)
EXT["numpy.ma.masked_greater"] = _masked(False)


@ext("numpy.ma.count")
def _macount(it, a, k):
    x = toarr(it, a[0])
    return int((~x.mask).sum()) if isinstance(x, MA) else int(x.a.size)


_plainabs = EXT["numpy.abs"]


def _absma(it, a, k):
    r = _plainabs(it, a, k)
    if isinstance(a[0], MA):
        m = a[0].mask
        r = MA(r.a, r.sym)
        r.mask = m
    return r


def _builtinabs(it, a, k):
    x = a[0]
    if isinstance(x, Obj) and x.cls is not None and x.cls.find("__abs__"):
        return it.call_fn(Fn(x.cls.find("__abs__"), bound=x), [], {})
    return _absma(it, a, k)


EXT["numpy.abs"] = EXT["numpy.absolute"] = _absma
EXT["builtins.abs"] = _builtinabs


def _argbest(it, a, k, sg):
    x = toarr(it, a[0])
    if (it.decider is not None or isinstance(x, MA)) and not any(q is not None for q in x.sym):
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        mask = x.mask if isinstance(x, MA) else _np.zeros(x.a.shape, dtype=bool)
        src, msk = (x.a.reshape(-1), mask.reshape(-1)) if ax is None else \
            (_np.moveaxis(x.a, asint(ax), -1), _np.moveaxis(mask, asint(ax), -1))
        out = _np.empty(src.shape[:-1], dtype=object)
        for i in _np.ndindex(out.shape):
            best = 0
            for j in range(1, src.shape[-1]):
                if msk[i + (j,)]:
                    continue
                u, v = P.of(src[i + (j,)]), P.of(src[i + (best,)])
                if msk[i + (best,)] or truth(it, alg.lt(u, v) if sg < 0 else alg.lt(v, u)):
                    best = j
            out[i] = P.of(best)
        if out.ndim:
            r = A(out)
            r.dtype = "i8"
            return r
        return int(out[()].const())
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if any(q is not None for q in x.sym):
        raise Unsupp("order statistics")
    if ax is None:
        src = x.a.reshape(-1)
        ax = 0
    else:
        ax = asint(ax)
        src = x.a
    cs = _np.empty(src.shape, dtype=object)
    for i in _np.ndindex(src.shape):
        c = P.of(src[i]).const()
        if c is None:
            raise Unsupp("order statistics")
        cs[i] = c * sg
    cs = _np.moveaxis(cs, ax, -1)
    out = _np.empty(cs.shape[:-1], dtype=object)
    for i in _np.ndindex(out.shape):
        row = list(cs[i])
        out[i] = P.of(row.index(max(row)))
    return A(out) if out.ndim else out[()]


def _numbers(it, x):
    """array of plain numbers as a numpy array, None if a value is not a number"""
    v = [alg.constval(P.of(e)) if not isinstance(e, B) else None for e in toarr(it, x).a.reshape(-1)]
    if any(e is None for e in v):
        return None
    return v, toarr(it, x).a.shape


def _order_stat(name):
    def f(it, a, k):
        q = _numbers(it, a[0])
        if q is None or len(q[1]) != 1 or len(a) > 1 or set(k) - {"return_inverse", "return_index"}:
            raise Unsupp("order statistics")
        v = q[0]
        order = sorted(range(len(v)), key=lambda i: v[i])
        if name == "argsort":
            return A(_np.array([P.of(i) for i in order] + [None], dtype=object)[:-1])
        if name == "sort":
            return A(_np.array([P.of(v[i]) for i in order] + [None], dtype=object)[:-1])
        u = sorted(set(v))
        mk = lambda xs: A(_np.array([P.of(i) for i in xs] + [None], dtype=object)[:-1])
        r = [mk(u)]
        if it.truth(k.get("return_index", False)):
            r.append(mk([v.index(x) for x in u]))
        if it.truth(k.get("return_inverse", False)):
            r.append(mk([u.index(x) for x in v]))
        return tuple(r) if len(r) > 1 else r[0]
    return f


for _n in ("argsort", "sort", "unique"):
    EXT["numpy." + _n] = _order_stat(_n)


@ext("numpy.searchsorted")
def _searchsorted(it, a, k):
    x, v = toarr(it, a[0]), a[1]
    side = k.get("side", a[2] if len(a) > 2 else "left")
    if "sorter" in k or x.ndim != 1 or any(q is not None for q in x.sym):
        raise Unsupp("order statistics")
    def one(t):
        n = 0
        for y in x.a:
            if not (truth(it, alg.lt(P.of(y), P.of(t))) if side == "left" else not truth(it, alg.lt(P.of(t), P.of(y)))):
                break
            n += 1
        return n
    if isinstance(v, (A, list, tuple)):
        return elementwise(lambda t: P.of(one(t)), toarr(it, v))
    return one(v)


EXT["builtins.iter"] = lambda it, a, k: list(it.iterate(a[0]))


@ext("builtins.next")
def _next(it, a, k):
    x = a[0]                        # generators are evaluated to lists
    if not isinstance(x, list):
        raise Unsupp("next of %r" % (x,))
    if x:
        return x.pop(0)
    if len(a) > 1:
        return a[1]
    raise Raised(EXC["StopIteration"], "")


@ext("itertools.islice")
def _islice(it, a, k):
    b = [None if x is None else asint(x) for x in a[1:]]
    return it.iterate(a[0])[slice(*b)]


@ext("itertools.zip_longest", "itertools.izip_longest")
def _zip_longest(it, a, k):
    xs = [it.iterate(x) if x is not COUNT else None for x in a]
    n = max([len(x) for x in xs if x is not None], default=0)
    fill = k.get("fillvalue")
    return [tuple(i if x is None else x[i] if i < len(x) else fill for x in xs) for i in range(n)]


@ext("numpy.interp")
def _interp(it, a, k):
    raise Unsupp("np.interp")


@ext("numpy.copyto")
def _copyto(it, a, k):
    setindex(a[0], (Ellipsis,), toarr(it, a[1]))


@ext("numpy.isscalar")
def _isscalar(it, a, k):
    return isnum(a[0]) or isinstance(a[0], (str, bool))


@ext("numpy.may_share_memory", "numpy.shares_memory")
def _msm(it, a, k):
    return False


class DT(str):
    """element type"""
    name = property(lambda s: {"f": "float", "i": "int", "u": "uint", "c": "complex"}.get(s[0], s[0]) +
                    (str(int(s[1:]) * 8) if s[1:].isdigit() else "64") if s[0] in "fiuc" else str(s))
    kind = property(lambda s: s[0])
    char = property(lambda s: {"f8": "d", "f4": "f", "i8": "l", "i4": "i"}.get(str(s), s[0]))
    str = property(lambda s: "<" + str.__str__(s))
    itemsize = property(lambda s: int(s[1:] or 8))


_DTN = {"float": "f8", "double": "f8", "float_": "f8", "d": "f8", "f": "f4", "int": "i8", "i": "i4", "bool": "b1",
        "bool_": "b1", "intp": "i8", "int_": "i8", "complex": "c16", "float64": "f8", "float32": "f4", "int64": "i8",
        "int32": "i4", "long": "i8"}


def dt(d):
    if isinstance(d, DT):
        return d
    if isinstance(d, Ext):
        d = d.name.split(".")[-1]
    if d is None:
        return DT("f8")
    if isinstance(d, str):
        d = d.lstrip("<>=|")
        d = _DTN.get(d, d)
        if len(d) >= 2 and d[0] in "fiucb" and d[1:].isdigit():
            return DT(d)
    raise Unsupp("dtype %r" % (d,))


EXT["numpy.dtype"] = lambda it, a, k: dt(a[0])
for _t in ("float64", "float32", "float", "double", "float_"):
    EXT["numpy." + _t] = lambda it, a, k: a[0] if a else alg.ZERO
for _t in ("int", "int32", "int64", "intp", "int_"):
    EXT["numpy." + _t] = lambda it, a, k: EXT["builtins.int"](it, a, k)


@ext("numpy.issubdtype", "numpy.can_cast")
def _issub(it, a, k):
    n = a[1].name.split(".")[-1] if isinstance(a[1], Ext) else str(a[1])
    d = a[0]
    if isinstance(d, str):
        kind = d.lstrip("<>=|")[:1]
        return {"floating": kind == "f", "integer": kind in "iu", "inexact": kind in "fc",
                "number": kind in "fiuc", "bool_": kind == "b", "complexfloating": kind == "c",
                "datetime64": kind == "M", "timedelta64": kind == "m"}.get(n, False)
    raise Unsupp("dtype test")


@ext("numpy.result_type", "numpy.promote_types", "numpy.common_type")
def _rt(it, a, k):
    return "f8"


# --- numexpr -----------------------------------------------------------------------
@ext("numexpr.evaluate")
def _ne(it, a, k):
    s = a[0] if a else k["ex"]
    if not isinstance(s, str):
        raise Unsupp("numexpr expression is not constant")
    ld = k.get("local_dict", a[1] if len(a) > 1 else None)
    from .interp import Frame
    t = ast.parse(s.strip(), mode="eval").body
    fr = Frame(it.fr.mod)
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and n.id not in fr.vars:
            if n.id in NE_FN:
                fr.vars[n.id] = Ext(NE_FN[n.id])
            elif ld is not None:
                if n.id not in ld:
                    raise Raised(EXC["KeyError"], n.id)
                fr.vars[n.id] = ld[n.id]
            else:
                fr.vars[n.id] = it.lookup(n.id)
            v = fr.vars[n.id]
            if isinstance(v, Obj):
                fr.vars[n.id] = toarr(it, v)
            elif isinstance(v, (list, tuple)):
                fr.vars[n.id] = arr(v)
    r = it.eval_in(t, fr)
    o = k.get("out")
    if o is not None:
        setindex(toarr(it, o), (Ellipsis,), toarr(it, r))
        return o
    return r if isinstance(r, A) else scalar_arr(r)


NE_FN = {n: "numpy." + n for n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "exp", "log",
                                   "sqrt", "abs", "where", "floor", "ceil", "log10", "sinh", "cosh", "tanh")}


# --- builtins --------------------------------------------------------------------------
@ext("builtins.range", "builtins.xrange", "six.moves.range")
def _range(it, a, k):
    xs = [asint(x) for x in a]
    if None in xs:
        raise Unsupp("range over a symbolic extent")
    return list(range(*xs))


@ext("builtins.len")
def _len(it, a, k):
    x = a[0]
    if isinstance(x, A):
        if not x.ndim:
            raise Raised(EXC["TypeError"], "len of unsized")
        return x.shape[0]
    if isinstance(x, (list, tuple, str, dict, set)):
        return len(x)
    if isinstance(x, Obj) and x.model and "__len__" in x.model:
        return x.model["__len__"](it, x, [], {})
    if isinstance(x, Obj) and x.cls is not None and x.cls.find("__len__"):
        return it.call_fn(Fn(x.cls.find("__len__"), bound=x), [], {})
    if isinstance(x, Obj) and x.cls is not None and all(b == "object" for q in x.cls.mro() for b in q.ext_bases):
        e = Raised(EXC["TypeError"], "object of type %s has no len()" % x.cls.name)
        e.explicit = True
        raise e
    if isnum(x):
        raise Raised(EXC["TypeError"], "len of a number")
    raise Unsupp("len of %r" % (x,))


@ext("builtins.zip", "itertools.izip")
def _zip(it, a, k):
    xs = [it.iterate(x) if x is not COUNT and not isinstance(x, Repeat) else x for x in a]
    n = min([len(x) for x in xs if isinstance(x, (list, tuple))], default=0)
    xs = [list(range(n)) if x is COUNT else [x.value] * n if isinstance(x, Repeat) else x for x in xs]
    return [tuple(t) for t in zip(*xs)]


class Repeat(Opaque):
    """itertools.repeat without a number"""
    def __init__(self, value):
        Opaque.__init__(self, "repeat()")
        self.value = value


EXT["itertools.repeat"] = lambda it, a, k: [a[0]] * asint(k.get("times", a[1] if len(a) > 1 else 0)) if len(a) > 1 or k.get("times") is not None else Repeat(a[0])
COUNT = Opaque("count()")
EXT["itertools.count"] = lambda it, a, k: COUNT
EXT["itertools.chain"] = lambda it, a, k: sum((it.iterate(x) for x in a), [])


@ext("itertools.product")
def _product(it, a, k):
    import itertools
    return [tuple(t) for t in itertools.product(*[it.iterate(x) for x in a], repeat=k.get("repeat", 1))]


@ext("builtins.enumerate")
def _enum(it, a, k):
    s = asint(k.get("start", a[1] if len(a) > 1 else 0))
    return [(i + s, x) for i, x in enumerate(it.iterate(a[0]))]


EXT["builtins.reversed"] = lambda it, a, k: it.iterate(a[0])[::-1]
EXT["builtins.list"] = lambda it, a, k: it.iterate(a[0]) if a else []
EXT["builtins.tuple"] = lambda it, a, k: tuple(it.iterate(a[0])) if a else ()
EXT["builtins.set"] = lambda it, a, k: set(it.key(x) for x in it.iterate(a[0])) if a else set()


@ext("builtins.dict", "collections.OrderedDict")
def _dict(it, a, k):
    d = {}
    if a:
        d.update(a[0] if isinstance(a[0], dict) else
                 {it.key(it.iterate(p)[0]): it.iterate(p)[1] for p in it.iterate(a[0])})
    d.update(k)
    return d


@ext("builtins.slice")
def _slice(it, a, k):
    return slice(*a)


@ext("builtins.sum")
def _bsum(it, a, k):
    s = a[1] if len(a) > 1 else 0
    for x in it.iterate(a[0]):
        s = it.binop("+", s, x)
    return s


def _mm(name):
    def f(it, a, k):
        xs = it.iterate(a[0]) if len(a) == 1 else a
        if all(isinstance(x, int) for x in xs):
            return max(xs) if name == "max" else min(xs)
        ps = []
        for x in xs:
            if isinstance(x, A) and x.a.size == 1:
                x = x.a.reshape(-1)[0]
            if not isnum(x):
                raise Unsupp("%s of %r" % (name, x))
            ps.append(P.of(x))
        # decided orderings (array lengths)
        best = ps[0]
        for p in ps[1:]:
            c = alg.lt(best, p)
            if isinstance(c, bool):
                best = (p if c else best) if name == "max" else (best if c else p)
            else:
                return alg.fn(name, tuple(ps))
        return best
    return f


EXT["builtins.max"] = _mm("max")
EXT["builtins.min"] = _mm("min")


@ext("builtins.float")
def _float(it, a, k):
    x = a[0]
    if isinstance(x, A) and x.a.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, str):
        try:
            return P.of(float(x))
        except ValueError:
            raise Raised(EXC["ValueError"])
    if isinstance(x, (list, tuple, dict)) or x is None or isinstance(x, A):
        raise Raised(EXC["TypeError"], "float() of %r" % (x,))
    if not isnum(x) and not isinstance(x, (bool, B)):
        raise Unsupp("float of %r" % (x,))
    return P.of(alg.phi(x, 1, 0) if isinstance(x, B) else x)


@ext("builtins.int")
def _int(it, a, k):
    x = a[0] if a else 0
    if isinstance(x, A) and x.a.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise Raised(EXC["ValueError"])
    if isinstance(x, bool):
        return int(x)
    i = asint(x)
    if i is not None:
        return i
    if isinstance(x, P):
        if dim_of(x) is not None:
            return x
        return alg.fn("int", (x,))
    if isinstance(x, B):
        return alg.phi(x, 1, 0)
    raise Unsupp("int of %r" % (x,))


@ext("builtins.bool")
def _bool(it, a, k):
    return it.truth(a[0]) if a else False


@ext("builtins.str", "builtins.repr")
def _str(it, a, k):
    x = a[0] if a else ""
    if isinstance(x, P) and asint(x) is not None:
        x = asint(x)
    elif isinstance(x, P) and it.written is not None:
        x = it.written(x)
    if isinstance(x, (str, int)) or x is None:
        return str(x)
    return Opaque("string")


EXT["builtins.print"] = lambda it, a, k: None
EXT["builtins.id"] = lambda it, a, k: id(a[0])
EXT["builtins.hex"] = lambda it, a, k: hex(asint(a[0]))
@ext("builtins.hash")
def _hash(it, a, k):
    if isinstance(a[0], (list, dict, set, A)):
        raise Raised(EXC["TypeError"], "unhashable")
    return hash(a[0])


EXT["builtins.sorted"] = lambda it, a, k: _sorted(it, a, k)
EXT["builtins.callable"] = lambda it, a, k: isinstance(a[0], (Fn, Native, Cls, Ext))
EXT["builtins.map"] = lambda it, a, k: [it.call(a[0], list(t), {}) for t in zip(*[it.iterate(x) for x in a[1:]])]
EXT["builtins.filter"] = lambda it, a, k: [x for x in it.iterate(a[1]) if _known(it.truth(it.call(a[0], [x], {})))]


def _known(t):
    if not isinstance(t, bool):
        raise Unsupp("filter")
    return t


def _before(it, x, y):
    """x < y, decided"""
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        for u, v in zip(x, y):
            if _before(it, u, v):
                return True
            if _before(it, v, u):
                return False
        return len(x) < len(y)
    if isinstance(x, str) and isinstance(y, str):
        return x < y
    if isinstance(x, str) or isinstance(y, str):
        raise Raised(EXC["TypeError"], "ordering of a string and a number")
    r = it.truth(it.cmp(ast.Lt(), x, y))
    if not isinstance(r, bool):
        raise Unsupp("sorting symbolic values")
    return r


def _sorted(it, a, k):
    import functools
    xs = list(it.iterate(a[0]))
    key = k.get("key")
    ks = [x if key is None else it.call(key, [x], {}) for x in xs]
    cmp = functools.cmp_to_key(lambda u, v: -1 if _before(it, u[0], v[0]) else 1 if _before(it, v[0], u[0]) else 0)
    rev = k.get("reverse", False)
    return [x for _, x in sorted(zip(ks, xs), key=cmp, reverse=bool(it.truth(rev)))]


@ext("operator.itemgetter")
def _itemgetter(it, a, k):
    def get(it, b, kk, a=a):
        r = tuple(it.getitem(b[0], i) for i in a)
        return r[0] if len(a) == 1 else r
    return Native(get, "itemgetter")


@ext("operator.attrgetter")
def _attrgetter(it, a, k):
    def one(it, o, path):
        for n in path.split("."):
            o = it.getattr(o, n)
        return o

    def get(it, b, kk, a=a):
        r = tuple(one(it, b[0], n) for n in a)
        return r[0] if len(a) == 1 else r
    return Native(get, "attrgetter")


def _bisect(right, insert):
    def f(it, a, k):
        lst, x = a[0], a[1]
        key = k.get("key")
        n = lst.a.shape[0] if isinstance(lst, A) else len(lst)
        kx = x if key is None or not insert else it.call(key, [x], {})
        i = 0
        while i < n:
            y = it.getitem(lst, i)
            y = y if key is None else it.call(key, [y], {})
            if _before(it, kx, y) if right else not _before(it, y, kx):
                break
            i += 1
        if insert:
            lst.insert(i, x)
            return None
        return i
    return f


for _n, _r, _ins in (("bisect", True, False), ("bisect_right", True, False), ("bisect_left", False, False),
                     ("insort", True, True), ("insort_right", True, True), ("insort_left", False, True)):
    EXT["bisect." + _n] = _bisect(_r, _ins)


EXT["builtins.all"] = lambda it, a, k: alg.band(*[it.truth(x) for x in it.iterate(a[0])]) if it.iterate(a[0]) else True
EXT["builtins.any"] = lambda it, a, k: alg.bor(*[it.truth(x) for x in it.iterate(a[0])]) if it.iterate(a[0]) else False


@ext("builtins.getattr")
def _getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupp("getattr of an unknown name")
    try:
        return it.getattr(a[0], a[1])
    except Raised:
        if len(a) > 2:
            return a[2]
        raise


@ext("builtins.hasattr")
def _hasattr(it, a, k):
    o, n = a[0], a[1]
    if isinstance(o, (list, tuple, dict, str, int, P, B, bool, type(None), Fraction, slice, set)):
        if isinstance(o, (P, Fraction)):
            if n == "__index__":
                return asint(o) is not None
            return hasattr(1.0, n)
        return hasattr(o, n)
    if isinstance(o, A):
        return hasattr(_np.zeros(1), n)
    if isinstance(o, Obj) and o.cls is None and not (o.model and "__getattr__" in o.model):
        return n in o.attrs or n in (o.model or {})
    if isinstance(o, Obj):
        try:
            it.getattr(o, n)
            return True
        except Raised:
            return False
    if isinstance(o, Ext) and o.name == "numpy":
        return hasattr(_np, n)
    if isinstance(o, (float, complex)):
        return hasattr(o, n)
    if isinstance(o, Mod):
        k = o.name + "." + n
        return k in it.overrides or k in it.hooks or it.proj.resolve_name(o, n) is not None or k in it.proj.mods
    raise Unsupp("hasattr of %r" % (o,))


@ext("builtins.setattr")
def _setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


EXT["inspect.isclass"] = lambda it, a, k: isinstance(a[0], Cls) or isinstance(a[0], Ext) and \
    a[0].name.split(".")[-1][:1].isupper()


@ext("builtins.issubclass")
def _issubclass(it, a, k):
    o, ts = a
    if not isinstance(o, Cls):
        raise Unsupp("issubclass")
    for t in ts if isinstance(ts, (tuple, list)) else [ts]:
        if isinstance(t, Cls) and any(c is t for c in o.mro()):
            return True
        if not isinstance(t, Cls):
            raise Unsupp("issubclass")
    return False


@ext("builtins.isinstance")
def _isinstance(it, a, k):
    o, ts = a
    ts = list(ts) if isinstance(ts, (tuple, list)) else [ts]
    flat = []
    for t in ts:
        flat.extend(t if isinstance(t, (tuple, list)) else [t])
    for t in flat:
        if _isinst(o, t):
            return True
    return False


def _isinst(o, t):
    if isinstance(o, Opaque):
        raise Unsupp("type of an unknown value")
    if isinstance(t, Cls):
        if isinstance(o, Obj):
            if o.cls is not None:
                return any(c.qual == t.qual for c in o.cls.mro())
            if o.model and "__isa__" in o.model:
                return t.name in o.model["__isa__"]
            return False
        return False
    if isinstance(t, Ext):
        n = t.name.split(".")[-1]
        if n == "ndarray":
            return isinstance(o, A)
        if n == "dtype":
            return isinstance(o, DT)
        if n == "NoneType":
            return o is None
        if n == "ellipsis":
            return o is Ellipsis
        if n in ("complex", "complexfloating", "complex128", "complex64"):
            return isinstance(o, P) and is_cplx(o)
        if n in ("float", "floating", "float64", "float32"):
            return isinstance(o, (P, Fraction)) and not is_cplx(o)
        if n in ("int", "integer", "Integral", "int64", "int32", "long"):
            return isinstance(o, int) and not isinstance(o, bool)
        if n in ("number", "Number", "Real"):
            return isnum(o)
        if n in ("bool", "bool_"):
            return isinstance(o, (bool, B))
        if n in ("str", "basestring", "unicode", "string_types", "text_type", "bytes"):
            return isinstance(o, str)
        if n == "list":
            return isinstance(o, list)
        if n == "tuple":
            return isinstance(o, tuple)
        if n in ("dict", "OrderedDict"):
            return isinstance(o, dict)
        if n in ("set", "frozenset"):
            return isinstance(o, (set, frozenset))
        if n == "slice":
            return isinstance(o, slice)
        if n in ("complex", "datetime64", "timedelta64", "datetime", "timedelta", "MaskedArray", "date",
                 "complexfloating"):
            return False
        if n in ("Sequence",):
            return isinstance(o, (list, tuple, str))
        if n in ("Mapping",):
            return isinstance(o, dict)
    if isinstance(t, Opaque):
        if "string" in t.why or "datetime" in t.why:
            return isinstance(o, str) if "string" in t.why else False
    raise Unsupp("isinstance of %r" % (t,))


def is_cplx(p):
    return isinstance(p, P) and IMAG.key_atom in alg.atoms_of(p)


class IMAG:
    p = alg.var("1j")
    key_atom = next(iter(alg.atoms_of(p)))


def re_part(p):
    p = P.of(p)
    return alg.subst(p, lambda a: alg.ZERO if alg.atom_p(a).key == IMAG.p.key else None)


def im_part(p):
    p = P.of(p)
    if not is_cplx(p):
        return alg.ZERO
    q = (p - re_part(p)) * IMAG.p.inv()
    if is_cplx(q):
        raise Unsupp("complex arithmetic")
    return q


@ext("builtins.complex", "numpy.complex", "numpy.complex128", "numpy.complexfloating")
def _cplx(it, a, k):
    x = a[0]
    if isinstance(x, str):
        try:
            z = complex(x)
        except ValueError:
            raise Raised(EXC["ValueError"], "complex() arg is a malformed string")
        return P.of(z.real) + P.of(z.imag) * IMAG.p
    r = P.of(x)
    return r + P.of(a[1]) * IMAG.p if len(a) > 1 else r


@ext("numpy.fromstring")
def _fromstring(it, a, k):
    d = dtype_of(a, k, 1)
    r = arr([P.of(int(x)) if asint_dtype(d) else P.of(float(x)) for x in a[0].split((k.get("sep") or " ").strip() or None)])
    r.dtype = "i8" if asint_dtype(d) else None
    return r


def _astype(it, x, a, k):
    d = a[0] if a else k.get("dtype")
    r = _arrz(cast(x.copy(), d))
    if isinstance(r, A):
        r.dtype = "i8" if asint_dtype(d) else None
    return r


@ext("numpy.ma.masked_values", "numpy.ma.masked_equal")
def _maskedvalues(it, a, k):
    x, v = toarr(it, a[0]), P.of(a[1])
    if any(q is not None for q in x.sym):
        raise Unsupp("masked_values")
    r = MA(x.a, x.sym)
    r.mask = _np.zeros(x.a.shape, dtype=bool)
    for i in _np.ndindex(x.a.shape):
        r.mask[i] = alg.eq(P.of(x.a[i]), v) is True
    return r if r.mask.any() else x


def _type(it, a, k):
    o = a[0]
    if isinstance(o, Obj) and o.cls is not None:
        return o.cls
    if o is None:
        return Ext("builtins.NoneType")
    if o is Ellipsis:
        return Ext("builtins.ellipsis")
    for t in (bool, list, tuple, dict, slice, str, set, complex):
        if type(o) is t:
            return Ext("builtins." + t.__name__)
    if isinstance(o, int):
        return Ext("builtins.int")
    if isinstance(o, A):
        return Ext("numpy.ndarray")
    if isinstance(o, (P, Fraction)):
        return Ext("numpy.complex128" if is_cplx(o) else "builtins.float")
    return Opaque("type")


EXT["builtins.type"] = _type


def _re(name):
    import re

    def conc(x):
        if isinstance(x, Obj) and x.model and "pattern" in x.model:
            return x.model["re"]
        if not isinstance(x, (str, int)):
            raise Unsupp("re.%s on an unknown string" % name)
        return x

    def f(it, a, k):
        if name in ("sub", "subn"):
            rep = a[1]
            if not isinstance(rep, str):
                rep = lambda m, r=a[1]: it.call(r, [remodel(m)], {})
            return re.sub(conc(a[0]), rep, conc(a[2]), **{n: conc(v) for n, v in k.items()})
        r = getattr(re, name)(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})
        return remodel(r)
    return f


def remodel(r):
    import re
    if isinstance(r, re.Match):
        return Obj(model={n: Native(lambda it, a, k, n=n: getattr(r, n)(*a[1:]), n)
                          for n in ("group", "groups", "start", "end", "span", "groupdict")})
    if isinstance(r, re.Pattern):
        return Obj(model=dict({n: Native(lambda it, a, k, n=n: _re(n)(it, [a[0]] + list(a[1:]), k), n)
                               for n in ("match", "search", "sub", "findall", "split")}, pattern=r.pattern, re=r))
    return r


for _n in ("match", "search", "sub", "findall", "split", "compile", "fullmatch"):
    EXT["re." + _n] = _re(_n)
for _n in ("IGNORECASE", "I", "VERBOSE", "X", "MULTILINE", "M"):
    import re as _rem
    CONST["re." + _n] = int(getattr(_rem, _n))
EXT["warnings.warn"] = lambda it, a, k: None
EXT["numpy.errstate"] = lambda it, a, k: Opaque("errstate")
EXT["numpy.seterr"] = lambda it, a, k: Opaque("errstate")
EXT["logging.getLogger"] = lambda it, a, k: Obj(
    model={"__getattr__": lambda it, o, n: Native(lambda i, a, k: None, n)})
for _n in ("debug", "info", "warning", "warn", "error", "critical"):
    EXT["logging." + _n] = lambda it, a, k: None
EXT["copy.copy"] = lambda it, a, k: copy_val(a[0]) if isinstance(a[0], A) else (
    type(a[0])(a[0]) if isinstance(a[0], (list, dict)) else a[0])


def _deepcopy(it, a, k):
    import copy
    x = a[0]
    if isinstance(x, A):
        return x.copy()
    return copy.deepcopy(x)


EXT["copy.deepcopy"] = _deepcopy


@ext("collections.namedtuple")
def _nt(it, a, k):
    raise Unsupp("namedtuple")


# --- array attributes -----------------------------------------------------------------
def attr(it, x, n):
    if n == "shape":
        return x.shape
    if n == "ndim":
        return x.ndim
    if n == "T":
        return xtranspose(x)
    if n == "size":
        s = 1
        for d in x.shape:
            s = it.binop("*", s, d)
        return s
    if n == "dtype":
        return dt(x.dtype)
    if n in ("real", "imag"):
        r = x.map(re_part if n == "real" else im_part) if any(is_cplx(q) for q in x.a.flat) else \
            x if n == "real" else x.map(lambda q: alg.ZERO)
        return r
    if n in ("data", "values", "base", "flat"):
        return x
    if n == "flags":
        return {q: bool(x.a.flags[q]) for q in ("C_CONTIGUOUS", "F_CONTIGUOUS", "WRITEABLE")}
    f = METH.get(n)
    if f is None and n in ARITH:
        o, sw = ARITH[n]

        def f(it2, x, a, k):
            y = a[0]
            if isinstance(y, Obj):
                return NotImplemented if y.cls is not None and not y.cls.find("__array__") else \
                    rewrap(it2, wrapper([y]), it2.binop(o, *([toarr(it2, y), x] if sw else [x, toarr(it2, y)])))
            if o in CMPS:
                return it2.cmp(CMPS[o], x, y)
            return it2.binop(o, y, x) if sw else it2.binop(o, x, y)
    if f is None and n in ("__neg__", "__abs__", "__pos__", "__invert__"):
        def f(it2, x, a, k):
            return {"__neg__": lambda: it2.unary(x, lambda v: -P.of(v)), "__abs__": lambda: _un("abs")(it2, [x], {}),
                    "__pos__": lambda: x,
                    "__invert__": lambda: it2.unary(x, lambda v: alg.bnot(v) if isinstance(v, (bool, B)) else
                                                    -P.of(v) - 1)}[n]()
    if f is None and n == "__array__":
        def f(it2, x, a, k):
            return x
    if f is None:
        if not hasattr(_np.ndarray, n):
            raise Raised(EXC["AttributeError"], n)
        raise Unsupp("array attribute %s" % n)
    return Native(lambda it2, a, k, x=x: f(it2, x, a, k), n)


ARITH = {}
for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("mod", "%"),
               ("floordiv", "//"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>")):
    ARITH["__%s__" % _n] = (_o, False)
    ARITH["__r%s__" % _n] = (_o, True)
CMPS = {"<": ast.Lt(), "<=": ast.LtE(), ">": ast.Gt(), ">=": ast.GtE(), "==": ast.Eq(), "!=": ast.NotEq()}
for _n, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    ARITH["__%s__" % _n] = (_o, False)
METH = {
    "copy": lambda it, x, a, k: x.copy(),
    "astype": _astype,
    "reshape": lambda it, x, a, k: xreshape(it, x, it.iterate(a[0]) if len(a) == 1 and
                                            isinstance(a[0], (list, tuple, A)) else a),
    "ravel": lambda it, x, a, k: xreshape(it, x, [-1]),
    "flatten": lambda it, x, a, k: xreshape(it, x, [-1]),
    "transpose": lambda it, x, a, k: xtranspose(
        x, None if not a else [asint(q) for q in (it.iterate(a[0]) if isinstance(a[0], (list, tuple)) else a)]),
    "swapaxes": lambda it, x, a, k: _swap(it, [x] + list(a), k),
    "squeeze": lambda it, x, a, k: _squeeze(it, [x] + list(a), k),
    "sum": lambda it, x, a, k: EXT["numpy.sum"](it, [x] + list(a), k),
    "prod": lambda it, x, a, k: EXT["numpy.prod"](it, [x] + list(a), k),
    "mean": lambda it, x, a, k: EXT["numpy.mean"](it, [x] + list(a), k),
    "max": lambda it, x, a, k: EXT["numpy.max"](it, [x] + list(a), k),
    "min": lambda it, x, a, k: EXT["numpy.min"](it, [x] + list(a), k),
    "std": lambda it, x, a, k: EXT["numpy.std"](it, [x] + list(a), k),
    "ptp": lambda it, x, a, k: EXT["numpy.ptp"](it, [x] + list(a), k),
    "all": lambda it, x, a, k: EXT["numpy.all"](it, [x] + list(a), k),
    "any": lambda it, x, a, k: EXT["numpy.any"](it, [x] + list(a), k),
    "cumsum": lambda it, x, a, k: _cumsum(it, [x] + list(a), k),
    "dot": lambda it, x, a, k: _dot(it, [x] + list(a), k),
    "clip": lambda it, x, a, k: _clip(it, [x] + list(a), k),
    "trace": lambda it, x, a, k: _trace(it, [x], k),
    "repeat": lambda it, x, a, k: _repeat(it, [x] + list(a), k),
    "item": lambda it, x, a, k: x.a.reshape(-1)[0],
    "tolist": lambda it, x, a, k: _tolist(it, x),
    "fill": lambda it, x, a, k: setindex(x, (Ellipsis,), a[0]),
    "view": lambda it, x, a, k: x,
    "conj": lambda it, x, a, k: x,
    "round": lambda it, x, a, k: _un("rint")(it, [x], {}),
    "newbyteorder": lambda it, x, a, k: x,
    "argmin": lambda it, x, a, k: _argsort(it, [x], k),
    "argmax": lambda it, x, a, k: _argsort(it, [x], k),
}


def _arrz(r):
    return r if isinstance(r, A) else scalar_arr(r)


def _tolist(it, x):
    if any(s is not None for s in x.sym):
        raise Unsupp("tolist")
    return x.a.tolist()


@ext("numpy.finfo")
def _finfo(it, a, k):
    return Obj(attrs={"eps": P.of(Fraction(1, 2 ** 52)), "max": Fraction(2 ** 1024 - 2 ** 971),
                      "min": -Fraction(2 ** 1024 - 2 ** 971), "tiny": Fraction(1, 2 ** 1022),
                      "dtype": "float64"})
