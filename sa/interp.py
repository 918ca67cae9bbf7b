"""Value numbering over the syntax tree: an abstract interpreter whose values are the
normal forms of alg.py.  Arrays are object arrays of normal forms; a symbolic extent
("every index i") is one array slot whose normal form names the grid reads relative to
i, so slices become index shifts.  Branches on unknown predicates are evaluated on
copies of the state and joined with gated selections; there is no path enumeration
beyond that and no solver.  Whatever the model does not cover raises Unsupp, and the
obligation is reported as undecided."""
from __future__ import annotations
import ast
import copy
import sys
from fractions import Fraction
import numpy as _np
from . import alg
from .alg import P, B
from .proj import Func, Cls, Mod

sys.setrecursionlimit(20000)


class Unsupp(Exception):
    pass


def c_int_literal(e):
    """integer literal expression of the C front end (division truncates)"""
    if isinstance(e, ast.UnaryOp):
        return c_int_literal(e.operand)
    if isinstance(e, ast.BinOp):
        return not isinstance(e.op, ast.Pow) and c_int_literal(e.left) and c_int_literal(e.right)
    return isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool)


class Raised(Exception):
    """the program raises on this path"""
    def __init__(self, names, text=""):
        Exception.__init__(self, "%s %s" % (names[0], text))
        self.names = names
        self.text = text
        self.explicit = False


class Dim:
    """symbolic extent: base length name plus an offset"""
    __slots__ = ("name", "d")

    def __init__(self, name, d=0):
        self.name, self.d = name, d

    def __eq__(self, o):
        return isinstance(o, Dim) and o.name == self.name and o.d == self.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.name, self.d))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "%s%+d" % (self.name, self.d) if self.d else self.name

    @property
    def p(self):
        return alg.nvar("n_" + self.name) + self.d


def isnum(x):
    return isinstance(x, (int, Fraction, P)) and not isinstance(x, bool)


def elem(x):
    if isinstance(x, (P, B)):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (int, _np.integer)):
        return P.of(int(x))
    if isinstance(x, (float, _np.floating)):
        return P.of(float(x))
    if isinstance(x, Fraction):
        return P.of(x)
    raise Unsupp("array element %s" % type(x).__name__)


class A:
    """array value"""
    __slots__ = ("a", "sym", "ro", "dtype", "tag", "fresh")

    def __init__(self, a, sym=None, ro=False, dtype=None):
        self.a = a
        self.sym = tuple(sym) if sym is not None else (None,) * a.ndim
        assert len(self.sym) == a.ndim
        self.ro = ro
        self.fresh = False
        self.dtype = dtype
        self.tag = None

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def shape(self):
        return tuple(s.p if s is not None else n for s, n in zip(self.sym, self.a.shape))

    @property
    def dims(self):
        return tuple(s if s is not None else n for s, n in zip(self.sym, self.a.shape))

    def copy(self):
        return A(self.a.copy(), self.sym, dtype=self.dtype)

    def map(self, f):
        out = _np.empty(self.a.shape, dtype=object)
        for i in _np.ndindex(self.a.shape):
            out[i] = f(self.a[i])
        return A(out, self.sym, dtype=self.dtype)

    def __repr__(self):
        return "A%s%r" % (self.dims, self.a.tolist())


def arr(x, dtype=None):
    """concrete-shape array from nested python values"""
    if isinstance(x, A):
        return x
    if isinstance(x, Obj) and x.data is not None:
        return x.data
    if isinstance(x, (list, tuple)):
        items = [arr(e) if isinstance(e, (list, tuple, A, Obj)) else e for e in x]
        if any(isinstance(e, A) for e in items):
            return stack([e if isinstance(e, A) else scalar_arr(e) for e in items], 0)
        out = _np.empty((len(items),), dtype=object)
        for i, e in enumerate(items):
            out[i] = elem(e)
        return A(out)
    return scalar_arr(x)


def scalar_arr(x):
    out = _np.empty((), dtype=object)
    out[()] = elem(x)
    return A(out)


def mk(a, sym=None):
    """object ndarray -> value"""
    if not isinstance(a, _np.ndarray):
        return a
    return A(a, sym)


def grid(name, dims, axes=None):
    """fresh input array; dims: ints and Dims"""
    shp = tuple(1 if isinstance(d, Dim) else d for d in dims)
    out = _np.empty(shp, dtype=object)
    for i in _np.ndindex(shp):
        idx = tuple(i[k] for k, d in enumerate(dims) if not isinstance(d, Dim))
        offs = tuple((d.name, 0) for d in dims if isinstance(d, Dim))
        out[i] = alg.at(name, idx, offs)
    return A(out, [d if isinstance(d, Dim) else None for d in dims])


def symarr(name, shape):
    out = _np.empty(shape, dtype=object)
    for i in _np.ndindex(shape):
        out[i] = alg.var("%s%s" % (name, list(i)))
    return A(out)


def bcast(*xs):
    """common broadcast: list of (object ndarray), sym dims"""
    nd = max(x.ndim for x in xs)
    sym = [None] * nd
    for k in range(1, nd + 1):
        dims = []
        for x in xs:
            if k <= x.ndim:
                dims.append((x.sym[-k], x.a.shape[-k]))
        s = None
        for d, n in dims:
            if d is not None:
                if s is not None and s != d:
                    raise Unsupp("shape mismatch %s vs %s" % (s, d))
                s = d
        if s is not None:
            for d, n in dims:
                if d is None and n != 1:
                    raise Unsupp("shape mismatch %s vs %s" % (s, n))
        sym[-k] = s
    try:
        arrs = _np.broadcast_arrays(*[x.a for x in xs])
    except ValueError:
        if any(x.tag for x in xs) or any(sym):
            raise Unsupp("shape mismatch")
        r = Raised(EXC["ValueError"], "operands of shapes %s do not broadcast" %
                   " and ".join(str(x.a.shape) for x in xs))
        r.explicit = True
        raise r
    return arrs, sym


class MA(A):
    """masked array: .mask tells the elements that do not count"""
    __slots__ = ("mask",)


def elementwise(f, *xs):
    if not any(isinstance(x, A) for x in xs):
        return f(*xs)
    ys = [x if isinstance(x, A) else scalar_arr(x) for x in xs]
    arrs, sym = bcast(*ys)
    out = _np.empty(arrs[0].shape, dtype=object)
    for i in _np.ndindex(arrs[0].shape):
        out[i] = elem(f(*[a[i] for a in arrs]))
    if out.ndim == 0 and not any(isinstance(x, A) and x.ndim == 0 and x.tag for x in xs):
        return out[()]
    if any(isinstance(x, MA) for x in xs):
        r = MA(out, sym)
        r.mask = _np.zeros(out.shape, dtype=bool)
        for x in xs:
            if isinstance(x, MA):
                r.mask = r.mask | x.mask
        return r
    return A(out, sym)


def stack(xs, axis):
    nd = xs[0].ndim + 1
    if axis < 0:
        axis += nd
    sym = xs[0].sym
    for x in xs:
        if x.ndim != nd - 1 or x.dims != xs[0].dims:
            raise Unsupp("stacking different shapes %s %s" % (x.dims, xs[0].dims))
    out = _np.empty(xs[0].a.shape[:axis] + (len(xs),) + xs[0].a.shape[axis:], dtype=object)
    for i, x in enumerate(xs):
        out[(slice(None),) * axis + (i,)] = x.a
    return A(out, sym[:axis] + (None,) + sym[axis:])


def concat(xs, axis):
    nd = xs[0].ndim
    if axis < 0:
        axis += nd
    for x in xs:
        if x.ndim != nd:
            raise Unsupp("concatenate ndim")
        if x.sym[axis] is not None:
            raise Unsupp("concatenate along a symbolic axis")
        for k in range(nd):
            if k != axis and x.dims[k] != xs[0].dims[k]:
                raise Unsupp("concatenate shape")
    return A(_np.concatenate([x.a for x in xs], axis=axis), xs[0].sym)


def asint(x):
    """concrete python int or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else None
    if isinstance(x, P):
        c = x.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None
    if isinstance(x, A) and x.a.size == 1 and all(s is None for s in x.sym):
        return asint(x.a.reshape(-1)[0])
    return None


def rel(x, dim):
    """x as index relative to (start) or from the end: ('s', k) | ('e', k)"""
    k = asint(x)
    if k is not None:
        return ("s", k) if k >= 0 else ("e", k)
    if isinstance(x, P):
        d = x - dim.p
        c = d.const()
        if c is not None and c.denominator == 1:
            return ("e", int(c))
    raise Unsupp("symbolic slice bound %s" % (x,))


def index(v, key):
    """v[key] ; returns value, plus (view, writable) for item assignment"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # boolean / integer array keys
    for n, k in enumerate(key):
        if isinstance(k, A) and k.ndim == 0:
            key[n] = k.a[()]
    nk = sum(1 for k in key if k is not None and k is not Ellipsis)
    nk += sum(max(0, k.ndim - 1) for k in key if isinstance(k, A) and k.a.size and
              isinstance(k.a.reshape(-1)[0], (bool, B)))
    if any(k is Ellipsis for k in key):
        i = [k is Ellipsis for k in key].index(True)
        key[i:i + 1] = [slice(None)] * (v.ndim - nk)
    else:
        key += [slice(None)] * (v.ndim - nk)
    if sum(isinstance(k, (A, list)) for k in key) > 1 and all(q is None for q in v.sym):
        nk = []
        for k in key:
            if isinstance(k, (A, list)):
                kk = (k if isinstance(k, A) else arr(k)).a
                c = [asint(e) for e in kk.reshape(-1)]
                if any(e is None for e in c):
                    raise Unsupp("fancy index")
                nk.append(_np.array(c, dtype=int).reshape(kk.shape))
            elif isinstance(k, slice):
                b = [None if q is None else asint(q) for q in (k.start, k.stop, k.step)]
                nk.append(slice(*b))
            elif k is None or k is Ellipsis:
                nk.append(k)
            else:
                c = asint(k)
                if c is None:
                    raise Unsupp("fancy index")
                nk.append(c)
        try:
            r = A(v.a[tuple(nk)].copy(), ro=True)
            r.fresh = True
            return r
        except IndexError:
            raise Unsupp("index error")
    nkey, sym, shifts = [], [], []
    ax = 0
    ro = v.ro and not v.fresh
    fancy = False
    masked = ro
    for k in key:
        if k is None:
            nkey.append(None)
            sym.append(None)
            continue
        if ax >= v.ndim:
            raise Unsupp("too many indices")
        s = v.sym[ax]
        n = v.a.shape[ax]
        if isinstance(k, slice):
            if s is None:
                b = []
                for q in (k.start, k.stop, k.step):
                    if q is None:
                        b.append(None)
                    else:
                        c = asint(q)
                        if c is None:
                            raise Unsupp("symbolic slice of a concrete axis")
                        b.append(c)
                nkey.append(slice(*b))
                sym.append(None)
            else:
                st = asint(k.step) if k.step is not None else 1
                if st == -1 and k.start is None and k.stop is None:
                    # reversal: index n-1-i
                    raise Unsupp("reversed symbolic axis")
                if st != 1:
                    raise Unsupp("strided slice of a symbolic axis")
                lo = ("s", 0) if k.start is None else rel(k.start, s)
                hi = ("e", 0) if k.stop is None else rel(k.stop, s)
                if lo[0] == "s" and hi[0] == "e":
                    if lo[1]:
                        shifts.append((s.name, lo[1]))
                        ro = True
                    if hi[1] or lo[1]:
                        ro = True
                    nkey.append(slice(None))
                    sym.append(Dim(s.name, s.d - lo[1] + min(hi[1], 0)))
                else:
                    raise Unsupp("slice of fixed extent of a symbolic axis")
        elif isinstance(k, A) or isinstance(k, list):
            kk = k if isinstance(k, A) else arr(k)
            fl = [e for e in kk.a.reshape(-1)]
            if all(isinstance(e, bool) for e in fl) and fl and kk.ndim == 1 and s is None:
                nkey.append(_np.array(fl, dtype=bool))
                sym.append(None)
            elif all(asint(e) is not None for e in fl) and s is None and kk.ndim == 1 and not fancy:
                nkey.append(_np.array([asint(e) for e in fl], dtype=int))
                sym.append(None)
                fancy = True
            elif s is None and kk.ndim == 1 and len(fl) == n and not fancy and \
                    all(isinstance(e, (bool, B)) for e in fl):
                # selection by an undecided mask: all rows are kept; the rows outside the mask are
                # dropped again by the masked assignment they feed
                nkey.append(slice(None))
                sym.append(None)
                masked = True
            else:
                raise Unsupp("fancy index")
            ro = True
        else:
            if s is None:
                c = asint(k)
                if c is None:
                    raise Unsupp("symbolic index into a concrete axis")
                if c >= n or c < -n:
                    r = Raised(EXC["IndexError"], "index %d out of range %d" % (c, n))
                    r.explicit = v.tag is None
                    raise r
                nkey.append(c)
            else:
                # a particular index along a symbolic axis
                if isinstance(k, (int, Fraction)):
                    k = P.of(k)
                if not isinstance(k, P):
                    raise Unsupp("index type %s" % type(k).__name__)
                c = k.const()
                base = alg.var(("idx", s.name))
                if c is not None and c < 0:
                    k = s.p + k
                shifts.append((s.name, ("abs", k)))
                nkey.append(0)
                ro = True
        ax += 1
    # sym list has to follow numpy's result order (None handled in place)
    try:
        out = v.a[tuple(nkey)]
    except IndexError:
        raise Unsupp("index error")
    if shifts:
        def f(e):
            for name, off in shifts:
                if isinstance(off, tuple):
                    e = fix(e, name, off[1])
                else:
                    e = alg.shift(e, name, off)
            return e
        if isinstance(out, _np.ndarray):
            o2 = _np.empty(out.shape, dtype=object)
            for i in _np.ndindex(out.shape):
                o2[i] = f(out[i])
            out = o2
        else:
            out = f(out)
    if not isinstance(out, _np.ndarray):
        return out
    r = A(out, sym, ro=ro)
    if ro and not masked and not shifts and all(q is None for q in v.sym) and any(isinstance(k, (A, list)) for k in key):
        r.fresh = True         # indexing by a list copies
    return r


def fix(p, axis, k):
    """element at index k of a symbolic axis"""
    def f(a):
        if a.kind == "at":
            idx, offs = a.args
            for x, o in offs:
                if x == axis:
                    rest = tuple(q for q in offs if q[0] != axis)
                    o = o if isinstance(o, P) else P.of(o)
                    return alg.at(a.name, idx, rest + ((axis + "@", o + k),))
            return alg.atom_p(a)
        if a.kind == "var" and a.name == ("idx", axis):
            return P.of(k)
        return None
    return alg.subst_any(p, f, {})


def setindex(v, key, val):
    if v.ro and not v.fresh:
        raise Unsupp("write through a shifted slice")
    if not isinstance(key, tuple):
        key = (key,)
    masks = [k for k in key if isinstance(k, A) and k.a.size and
             any(isinstance(e, (bool, B)) for e in k.a.reshape(-1))]
    if masks and len(key) == 1 and (masks[0].ndim > 1 or any(isinstance(e, B) for e in masks[0].a.reshape(-1))
                                   or not (isinstance(val, A) and val.ndim)):
        m = masks[0]
        arrs, sym = bcast(v, m)
        if arrs[0].shape != v.a.shape:
            # mask over leading dims
            raise Unsupp("mask shape")
        if isinstance(val, A) and val.ndim:
            try:
                va, _ = bcast(v, val)
                if va[1].shape != v.a.shape:
                    raise Unsupp("masked assignment")
                vals = va[1]
            except Unsupp:
                raise Unsupp("masked assignment of a compressed array")
            # numpy would use a compressed right hand side: only full size selections made with
            # the same mask are modelled
            if getattr(val, "tag", None) != ("masked", id(m)):
                raise Unsupp("masked assignment of a compressed array")
        else:
            e = elem(val.a[()] if isinstance(val, A) else val)
            vals = None
        for i in _np.ndindex(v.a.shape):
            nv = vals[i] if vals is not None else e
            v.a[i] = join_elem(arrs[1][i], nv, v.a[i])
        return
    if masks and len(masks) == 1 and key[0] is masks[0] and masks[0].ndim == 1 and \
            any(isinstance(e, B) for e in masks[0].a) and v.sym[0] is None and \
            len(masks[0].a) == v.a.shape[0]:
        for i, c in enumerate(masks[0].a):
            if c is False:
                continue
            row = val
            if isinstance(val, (list, tuple)):
                row = val = arr(val)
            if isinstance(val, A) and val.ndim:
                sub = index(v, (0,) + tuple(key[1:]))
                if val.ndim > (sub.ndim if isinstance(sub, A) else 0):
                    row = index(val, (i if val.a.shape[0] > 1 else 0,))
            if c is True:
                setindex(v, (i,) + tuple(key[1:]), row)
                continue
            tmp = v.copy()
            setindex(tmp, (i,) + tuple(key[1:]), row)
            for j in _np.ndindex(v.a.shape):
                if j[0] == i:
                    v.a[j] = join_elem(c, tmp.a[j], v.a[j])
        return
    w = index(v, tuple(Ellipsis if k is Ellipsis else k for k in key))
    if not isinstance(w, A):
        # single element: recompute the concrete key
        kk = []
        ks = list(key)
        if any(k is Ellipsis for k in ks):
            i = [k is Ellipsis for k in ks].index(True)
            ks[i:i + 1] = [slice(None)] * (v.ndim - len(ks) + 1)
        for ax, k in enumerate(ks):
            if v.sym[ax] is not None:
                raise Unsupp("write of one element of a symbolic axis")
            kk.append(asint(k))
        e = val
        if isinstance(val, A):
            if val.a.size != 1 or any(s is not None for s in val.sym):
                raise Unsupp("assigning an array to an element")
            e = val.a.reshape(-1)[0]
        v.a[tuple(kk)] = elem(e)
        return
    if w.ro and any(isinstance(k, (A, list)) for k in key):
        # write through a list of positions
        ids = _np.empty(v.a.shape, dtype=object)
        for n, i in enumerate(_np.ndindex(v.a.shape)):
            ids[i] = n
        pos = index(A(ids, v.sym), tuple(key))
        if [q for q in pos.sym if q is not None] != [q for q in v.sym if q is not None]:
            raise Unsupp("write to part of a symbolic axis")
        x = val if isinstance(val, A) else (arr(val) if isinstance(val, (list, tuple))
                                            else scalar_arr(val))
        arrs, sym = bcast(pos, x)
        if arrs[0].shape != pos.a.shape:
            raise Unsupp("assignment shape")
        src = arrs[1].copy()
        for i in _np.ndindex(pos.a.shape):
            v.a[_np.unravel_index(pos.a[i], v.a.shape)] = src[i]
        return
    if w.ro:
        raise Unsupp("write to part of a symbolic axis")
    x = val if isinstance(val, A) else (arr(val) if isinstance(val, (list, tuple, Obj))
                                        else scalar_arr(val))
    # broadcast x to w
    x = A(x.a, x.sym)
    while x.ndim > w.ndim and x.a.shape[0] == 1 and x.sym[0] is None:
        x = A(x.a[0], x.sym[1:])
    arrs, sym = bcast(w, x)
    if arrs[0].shape != w.a.shape or tuple(sym) != w.sym:
        raise Unsupp("assignment shape %s <- %s" % (w.dims, x.dims))
    if not _np.shares_memory(w.a, v.a) and w.a.size:
        raise Unsupp("assignment to a copy")
    src = arrs[1].copy()
    for i in _np.ndindex(w.a.shape):
        w.a[i] = src[i]


def join_elem(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        if a == b:
            return a
        return alg.bor(alg.band(c, a), alg.band(alg.bnot(c), b))
    return alg.phi(c, a, b)


# --- objects -------------------------------------------------------------------
class Obj:
    """instance of a repository class (or a modelled one)"""
    def __init__(self, cls=None, attrs=None, data=None, model=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.data = data
        self.model = model       # name -> python callable(interp, self, args, kwargs) | value

    def __repr__(self):
        return "<Obj %s>" % (self.cls.qual if self.cls else "model")


class Fn:
    """closure"""
    def __init__(self, func, frame=None, bound=None, cls=None):
        self.func, self.frame, self.bound, self.cls = func, frame, bound, cls

    def __deepcopy__(self, memo):
        return Fn(self.func, self.frame if self.frame is None else copy.deepcopy(self.frame, memo),
                  copy.deepcopy(self.bound, memo), self.cls)

    def __repr__(self):
        return "<Fn %s>" % self.func.qual


class Ext:
    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<ext %s>" % self.name


def ref_model(fr, name):
    """a C pointer to a local number"""
    def get(it, o, a, k):
        if a[0] != 0:
            raise Unsupp("pointer arithmetic")
        return fr.vars[name]

    def put(it, o, a, k):
        if a[0] != 0:
            raise Unsupp("pointer arithmetic")
        fr.vars[name] = a[1]
    return {"__getitem__": get, "__setitem__": put}


class Native:
    """python callable(interp, args, kwargs)"""
    def __init__(self, f, name=""):
        self.f, self.name = f, name

    def __deepcopy__(self, memo):
        return self


class Opaque:
    """value the analysis knows nothing about"""
    def __init__(self, why=""):
        self.why = why

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<opaque %s>" % self.why


class Frame:
    def __init__(self, mod, parent=None, func=None, cls=None):
        self.vars = {}
        self.mod, self.parent, self.func, self.cls = mod, parent, func, cls
        self.rets = []          # [(cond, value, state)]
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None

    def __deepcopy__(self, memo):
        f = Frame(self.mod, None, self.func, self.cls)
        memo[id(self)] = f
        f.parent = copy.deepcopy(self.parent, memo)
        f.vars = {k: copy.deepcopy(v, memo) for k, v in self.vars.items()}
        f.rets = self.rets
        f.globals_, f.nonlocals = self.globals_, self.nonlocals
        f.yields = copy.deepcopy(self.yields, memo)
        return f


for _c in (Func, Cls, Mod):
    _c.__deepcopy__ = lambda self, memo: self


NORMAL, RETURN, BREAK, CONTINUE, DEAD = "normal return break continue dead".split()
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%",
          ast.FloorDiv: "//", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}


def divide(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and \
            not isinstance(a, bool):
        if b == 0:
            raise Raised(["ZeroDivisionError"])
        r = Fraction(a) / Fraction(b)
        return P.of(r)
    return P.of(a) / P.of(b)


def binop(op, a, b):
    if isinstance(a, Fraction):
        a = P.of(a)
    if isinstance(b, Fraction):
        b = P.of(b)
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and op in "&|^":
        if op == "&":
            return alg.band(a, b)
        if op == "|":
            return alg.bor(a, b)
        return alg.bor(alg.band(a, alg.bnot(b)), alg.band(b, alg.bnot(a)))
    if isinstance(a, B):
        a = alg.phi(a, 1, 0)
    if isinstance(b, B):
        b = alg.phi(b, 1, 0)
    ci = isinstance(a, int) and isinstance(b, int)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return divide(a, b)
    if op == "**":
        if ci and b >= 0:
            return a ** b
        return P.of(a) ** P.of(b)
    if op in ("%", "//"):
        if ci and b:
            return a % b if op == "%" else a // b
        ca, cb = P.of(a).const(), P.of(b).const()
        if ca is not None and cb:
            return P.of(ca % cb) if op == "%" else P.of(ca // cb)
        fl = alg.fn("floor", (P.of(a) / P.of(b),))
        return P.of(a) - P.of(b) * fl if op == "%" else fl
    ia, ib = asint(a), asint(b)
    if ia is not None and ib is not None:
        return {"&": ia & ib, "|": ia | ib, "^": ia ^ ib}[op] if op in "&|^" else \
            (ia << ib if op == "<<" else ia >> ib)
    if op in "&|^":
        xs = sorted([P.of(a), P.of(b)], key=lambda q: sorted(q.t.items()))
        return alg.fn("bit" + op, tuple(xs))
    if op in ("<<", ">>"):
        return alg.fn("bit" + op, (P.of(a), P.of(b)))
    raise Unsupp("operator %s" % op)


def compare(op, a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        if op == "==":
            return alg.bor(alg.band(a, b), alg.band(alg.bnot(a), alg.bnot(b)))
        if op == "!=":
            return alg.bnot(compare("==", a, b))
    if isinstance(a, B):
        a = alg.phi(a, 1, 0)
    if isinstance(b, B):
        b = alg.phi(b, 1, 0)
    if op == "<":
        return alg.lt(a, b)
    if op == ">":
        return alg.lt(b, a)
    if op == "<=":
        return alg.le(a, b)
    if op == ">=":
        return alg.le(b, a)
    if op == "==":
        return alg.eq(a, b)
    return alg.bnot(alg.eq(a, b))


STRM = {"strip", "lower", "upper", "split", "startswith", "endswith", "replace", "join", "rstrip",
        "lstrip", "format", "find", "count", "index", "isdigit", "title", "capitalize", "rsplit",
        "partition", "rpartition", "encode", "decode", "isalpha", "splitlines", "rfind"}
LISTM = {"append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "copy", "clear", "sort"}
DICTM = {"get", "keys", "values", "items", "pop", "setdefault", "update", "copy", "clear"}
EXC = {"KeyError": ["KeyError", "LookupError", "Exception", "BaseException"],
       "IndexError": ["IndexError", "LookupError", "Exception", "BaseException"],
       "AttributeError": ["AttributeError", "Exception", "BaseException"],
       "TypeError": ["TypeError", "Exception", "BaseException"],
       "StopIteration": ["StopIteration", "Exception", "BaseException"],
       "ValueError": ["ValueError", "Exception", "BaseException"]}


class Interp:
    def __init__(self, proj, hooks=None, overrides=None, maxdepth=80):
        from . import npmodel
        self.proj = proj
        self.hooks = hooks or {}          # qualname -> f(interp, args, kwargs)
        self.overrides = overrides or {}  # "mod.name" -> value
        self.ext = dict(npmodel.EXT)
        self.frames = []
        self.maxdepth = maxdepth
        self.gcache = {}
        self.steps = 0
        self.maxsteps = 400000
        self.calls = set()
        self.decider = None               # B -> True/False/None: position of the inputs
        self.assumed = []
        self.clsattrs = {}                # (class, attribute) -> value assigned later
        self.written = None               # number -> text in a modelled file

    # --- entry -------------------------------------------------------------
    def call_qual(self, qual, args=(), kwargs=None):
        f = self.proj.func(qual)
        if f is None:
            raise Unsupp("no function %s" % qual)
        return self.call(Fn(f), list(args), dict(kwargs or {}))

    def probe(self, modname, src, args):
        """interpret a small driver function in the scope of a module, so that containers it
        shares with the code under analysis are merged with the rest of the state"""
        node = ast.parse(src).body[0]
        return self.call(Fn(Func(self.proj.mods[modname], None, node)), list(args), {})

    def construct(self, qual, args=(), kwargs=None):
        m, _, n = qual.rpartition(".")
        c = self.proj.mods[m].classes[n]
        return self.call(c, list(args), dict(kwargs or {}))

    # --- calls ---------------------------------------------------------------
    def call(self, f, args, kwargs):
        if isinstance(f, Native):
            return f.f(self, args, kwargs)
        if isinstance(f, Func):
            f = Fn(f)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            h = self.hooks.get(f.qual)
            if h is not None:
                return h(self, args, kwargs)
            o = Obj(f)
            init = f.find("__init__")
            if init is not None:
                self.call_fn(Fn(init, bound=o), args, kwargs)
            elif args or kwargs:
                new = f.find("__new__")
                if new is not None:
                    raise Unsupp("__new__ of %s" % f.qual)
            return o
        if isinstance(f, Ext):
            h = self.hooks.get(f.name) or self.ext.get(f.name)
            if h is None:
                raise Unsupp("external call %s" % f.name)
            return h(self, args, kwargs)
        if isinstance(f, Obj):
            if f.model and "__call__" in f.model:
                return f.model["__call__"](self, f, args, kwargs)
            if f.cls is not None:
                m = f.cls.find("__call__")
                if m is not None:
                    return self.call_fn(Fn(m, bound=f), args, kwargs)
        raise Unsupp("call of %r" % (f,))

    def bind(self, fn, args, kwargs, frame):
        f = fn.func
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        args = list(args)
        kwargs = dict(kwargs)
        if fn.bound is not None and not f.is_static:
            args.insert(0, fn.bound)
        v = {}
        for n, x in zip(pos, args):
            v[n] = x
        extra = args[len(pos):]
        if a.vararg:
            v[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Raised(EXC["TypeError"], "too many arguments for %s" % f.qual)
        rest = {}
        for k, x in kwargs.items():
            if k in v and k in pos:
                raise Raised(EXC["TypeError"], "multiple values for %s" % k)
            if k in pos or k in kwo:
                v[k] = x
            else:
                rest[k] = x
        if a.kwarg:
            v[a.kwarg.arg] = rest
        elif rest:
            raise Raised(EXC["TypeError"], "unexpected argument %s for %s" % (sorted(rest)[0], f.qual))
        for n in pos + kwo:
            if n not in v:
                if n in f.defaults:
                    v[n] = self.eval_in(f.defaults[n], Frame(f.mod, fn.frame, None, f.cls))
                else:
                    raise Raised(EXC["TypeError"], "missing argument %s of %s" % (n, f.qual))
        frame.vars.update(v)

    def call_fn(self, fn, args, kwargs):
        f = fn.func
        h = self.hooks.get(f.qual)
        if h is not None:
            return h(self, ([fn.bound] if fn.bound is not None and not f.is_static else []) + list(args),
                     kwargs)
        if len(self.frames) > self.maxdepth:
            raise Unsupp("recursion")
        self.calls.add(f.qual)
        fr = Frame(f.mod, fn.frame, f, f.cls)
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            self.bind(fn, args, kwargs, fr)
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body)
                return r
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
                fr.yields = []
            st = self.block(f.node.body)
            fr = self.frames[-1]
            if fr.yields is not None:
                return list(fr.yields)
            # the last path: falls off the end, returned, or is dead
            cur = None
            if st[0] == RETURN:
                cur = st[1]
            elif st[0] == DEAD:
                cur = DEAD
            for cond, val, snap in reversed(fr.rets):
                if cur is DEAD:
                    cur = val
                    self.frames[:] = snap
                else:
                    cur = self.join_value(cond, val, cur, snap)
            if cur is DEAD:
                raise Raised(EXC["ValueError"], "every path raises")
            return cur
        finally:
            del self.frames[depth - 1:]

    # --- joining ---------------------------------------------------------------
    def join_value(self, cond, a, b, snap):
        """value a under cond (with its state snap) else b (current state)"""
        memo = {}
        j = self.join(cond, a, b, memo)
        for fa, fb in zip(snap[:-1], self.frames[:-1]):
            self.join_frame(cond, fa, fb, memo)
        return j

    def join_frame(self, cond, fa, fb, memo):
        for k in list(fb.vars):
            if k in fa.vars:
                fb.vars[k] = self.join(cond, fa.vars[k], fb.vars[k], memo)
        for k in fa.vars:
            if k not in fb.vars:
                fb.vars[k] = fa.vars[k]

    def join(self, cond, a, b, memo):
        if a is b:
            return b
        k = (id(a), id(b))
        if k in memo:
            return memo[k]
        if isinstance(a, (P, int, Fraction)) and isinstance(b, (P, int, Fraction)) and \
                not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return alg.phi(cond, a, b)
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            return join_elem(cond, a, b)
        if isinstance(a, A) and isinstance(b, A):
            if a.dims == b.dims:
                if b.ro or a.ro:
                    r = b.copy()
                else:
                    r = b
                for i in _np.ndindex(r.a.shape):
                    r.a[i] = join_elem(cond, a.a[i], b.a[i])
                memo[k] = r
                return r
            return Opaque("arrays of different shapes")
        if isinstance(a, A) and a.a.size == 1 and isnum(b) or isinstance(b, A) and b.a.size == 1 and isnum(a):
            return Opaque("array or number")
        if type(a) is not type(b):
            return Opaque("different kinds at a join")
        if isinstance(a, (list, tuple)):
            if len(a) == len(b):
                if isinstance(a, list):
                    memo[k] = b
                    for i in range(len(b)):
                        b[i] = self.join(cond, a[i], b[i], memo)
                    return b
                return tuple(self.join(cond, x, y, memo) for x, y in zip(a, b))
            return Opaque("sequences of different length")
        if isinstance(a, dict):
            memo[k] = b
            for key in list(b):
                if key in a:
                    b[key] = self.join(cond, a[key], b[key], memo)
                else:
                    b[key] = Opaque("only on one branch")
            for key in a:
                if key not in b:
                    b[key] = Opaque("only on one branch")
            return b
        if isinstance(a, Obj):
            if a.cls is b.cls:
                memo[k] = b
                for key in set(a.attrs) | set(b.attrs):
                    if key in a.attrs and key in b.attrs:
                        b.attrs[key] = self.join(cond, a.attrs[key], b.attrs[key], memo)
                    else:
                        b.attrs[key] = Opaque("only on one branch")
                if a.data is not None and b.data is not None:
                    b.data = self.join(cond, a.data, b.data, memo)
                return b
            return Opaque("different classes")
        if isinstance(a, Fn):
            return b if a.func is b.func else Opaque("functions")
        try:
            if a == b:
                return b
        except Exception:
            pass
        if isinstance(a, Frame):
            return b
        return Opaque("different values at a join")

    def fork(self):
        return copy.deepcopy(self.frames)

    # --- statements --------------------------------------------------------------
    def block(self, body):
        for i, s in enumerate(body):
            st = self.stmt(s)
            if st[0] != NORMAL:
                return st
        return (NORMAL,)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupp("too long")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupp("statement %s" % type(s).__name__)
        try:
            return m(s) or (NORMAL,)
        except (Unsupp, Raised) as e:
            if not hasattr(e, "trail"):
                e.trail = []
            if len(e.trail) < 12:
                e.trail.append("%s:%d" % (self.fr.mod.name, getattr(s, "lineno", 0)))
            raise

    @property
    def fr(self):
        return self.frames[-1]

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            m = self.proj.mods.get(nm)
            self.fr.vars[a.asname or nm] = m if m is not None else Ext(nm)

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            mod = self.proj._relmod(self.fr.mod, s)
        for a in s.names:
            r = None
            if mod in self.proj.mods:
                r = self.proj.resolve_name(self.proj.mods[mod], a.name)
            if r is None:
                r = self.proj.mods.get(mod + "." + a.name)
            if r is None:
                r = ("ext", mod + "." + a.name)
            self.fr.vars[a.asname or a.name] = self.from_resolved(r)

    def s_Global(self, s):
        self.fr.globals_ |= set(s.names)

    def s_Nonlocal(self, s):
        self.fr.nonlocals |= set(s.names)

    def s_FunctionDef(self, s):
        f = Func(self.fr.mod, None, s, parent=self.fr.func)
        self.fr.vars[s.name] = Fn(f, frame=self.fr)

    def s_ClassDef(self, s):
        if s.keywords or s.decorator_list:
            raise Unsupp("local class")
        c = Cls(self.fr.mod, s)
        self.proj._class_body(self.fr.mod, c, s.body)
        for b in s.bases:
            v = self.eval(b)
            if isinstance(v, Cls):
                c.bases.append(v)
            else:
                c.ext_bases.append(ast.unparse(b))
        self.fr.vars[s.name] = c

    def s_Assert(self, s):
        try:
            self.eval(s.test)
        except Unsupp:
            pass

    def s_Raise(self, s):
        names = ["Exception", "BaseException"]
        again = None
        if s.exc is None:
            again = getattr(self.fr, "handling", None)
        elif isinstance(s.exc, ast.Name):
            v = self.fr.vars.get(s.exc.id)
            again = v.exc if isinstance(v, Opaque) and hasattr(v, "exc") else None
        if again is not None:
            r = Raised(again.names, again.text)
            r.explicit = again.explicit
            raise r
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = ast.unparse(e).split(".")[-1]
            names = EXC.get(n, [n, "Exception", "BaseException"])
            c = None
            try:
                c = self.eval(e)
            except (Unsupp, Raised):
                pass
            if isinstance(c, Cls):
                names = [k.name for k in c.mro()] + [x.split(".")[-1] for k in c.mro()
                                                    for x in k.ext_bases] + names[1:]
        r = Raised(names, ast.unparse(s)[:80])
        r.explicit = True
        raise r

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                if isinstance(o, (dict, list)):
                    k = self.key(self.eval(t.slice))
                    try:
                        del o[k]
                    except KeyError:
                        raise Raised(EXC["KeyError"])
                elif isinstance(o, Obj) and o.model and "__delitem__" in o.model:
                    o.model["__delitem__"](self, o, [self.eval(t.slice)], {})
                elif isinstance(o, Obj) and o.cls is not None and o.cls.find("__delitem__"):
                    self.call_fn(Fn(o.cls.find("__delitem__"), bound=o), [self.eval(t.slice)], {})
                else:
                    raise Unsupp("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Obj):
                    o.attrs.pop(t.attr, None)
            else:
                raise Unsupp("del")

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        return (RETURN, v)

    def s_Break(self, s):
        return (BREAK,)

    def s_Continue(self, s):
        return (CONTINUE,)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        elif isinstance(s.target, ast.Name) and isinstance(s.annotation, ast.Constant) and \
                isinstance(s.annotation.value, str) and s.annotation.value.endswith("]"):
            # C array of fixed length: cdef T x[n]
            n = s.annotation.value.rsplit("[", 1)[1][:-1]
            if n.isdigit():
                self.fr.vars[s.target.id] = [None] * int(n)

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
        else:
            cur = self.eval(as_load(s.target))
        v = self.eval(s.value)
        if isinstance(cur, list) and op == "+":
            cur.extend(self.iterate(v))
            return
        r = self.binop(op, cur, v)
        if isinstance(cur, A) and not isinstance(s.target, ast.Subscript) and isinstance(r, A):
            if not cur.ro and r.dims == cur.dims:
                setindex(cur, (Ellipsis,), r) if cur.ndim else self.assign(s.target, r)
                return
            if r.dims != cur.dims:
                if all(isinstance(d, int) for d in r.dims + cur.dims):
                    e = Raised(EXC["ValueError"], "the result of shape %s doesn't fit in place of %s" % (r.dims, cur.dims))
                    e.explicit = True
                    raise e
                raise Unsupp("in place operation changes the shape")
            r = r.copy()
        if isinstance(cur, Obj) and cur.data is not None and isinstance(r, Obj) and r.data is not None:
            setindex(cur.data, (Ellipsis,), r.data)
            return
        self.assign(s.target, r)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.fr
            if t.id in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    if t.id in p.vars:
                        p.vars[t.id] = v
                        return
                    p = p.parent
            if t.id in fr.globals_:
                self.overrides[fr.mod.name + "." + t.id] = v
                return
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(xs) < n:
                    raise Raised(EXC["ValueError"], "unpack")
                mid = len(xs) - (n - i)
                for e, x in zip(t.elts[:i], xs[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, list(xs[i:mid]))
                for e, x in zip(t.elts[i + 1:], xs[mid:]):
                    self.assign(e, x)
                return
            if len(xs) != len(t.elts):
                raise Raised(EXC["ValueError"], "unpack %d into %d" % (len(xs), len(t.elts)))
            for e, x in zip(t.elts, xs):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupp("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.model and ("set:" + name) in o.model:
                o.model["set:" + name](self, o, v)
                return
            if o.cls is not None:
                st = o.cls.find_setter(name)
                if st is not None:
                    self.call_fn(Fn(st, bound=o), [v], {})
                    return
            o.attrs[name] = v
            return
        if isinstance(o, A):
            if name == "shape":
                raise Unsupp("shape assignment")
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, Cls):
            if isinstance(v, (bool, int, str, type(None), Cls)) and o.find_attr(name)[0] is o:
                self.clsattrs[o.qual, name] = v
                return
        if isinstance(o, (P, int, float, str, tuple, list, dict, bool, type(None), Fraction)):
            raise Raised(EXC["AttributeError"], name)
        raise Unsupp("attribute assignment on %r" % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, Obj) and o.model and "__setitem__" in o.model:
            o.model["__setitem__"](self, o, [k, v], {})
        elif isinstance(o, Obj) and o.cls is not None and o.cls.find("__setitem__"):
            self.call_fn(Fn(o.cls.find("__setitem__"), bound=o), [k, v], {})
        elif isinstance(o, A):
            if isinstance(v, Obj) or isinstance(v, (list, tuple)) and any(isinstance(x, Obj) for x in v):
                from .npmodel import toarr
                v = toarr(self, v)
            setindex(o, k, v)
        elif isinstance(o, dict):
            o[self.key(k)] = v
        elif isinstance(o, list):
            if isinstance(k, slice):
                o[slice(*[None if q is None else asint(q) for q in (k.start, k.stop, k.step)])] = \
                    self.iterate(v)
            else:
                i = asint(k)
                if i is None:
                    raise Unsupp("symbolic list index")
                try:
                    o[i] = v
                except IndexError:
                    raise Raised(EXC["IndexError"])
        else:
            raise Unsupp("item assignment on %r" % (o,))

    def key(self, k):
        if isinstance(k, P):
            c = k.const()
            if c is not None:
                return int(c) if c.denominator == 1 else c
            raise Unsupp("symbolic key")
        if isinstance(k, (Opaque, B, A)):
            raise Unsupp("key")
        if isinstance(k, (list, dict, set)):
            raise Raised(EXC["TypeError"], "unhashable")
        return k

    def truth(self, v):
        """bool or B"""
        if isinstance(v, B) and self.decider is not None:
            d = self.decider(v)
            return v if d is None else d
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return bool(v)
        if isinstance(v, P):
            v = alg.bnot(alg.eq(v, 0))
            return self.truth(v) if isinstance(v, B) else v
        if isinstance(v, (str, list, tuple, dict, set, bytes)):
            return bool(v)
        if isinstance(v, A):
            if v.a.size == 1:
                return self.truth(v.a.reshape(-1)[0])
            raise Unsupp("truth of an array")
        if isinstance(v, (Func, Fn, Cls, Mod, Ext, Native)):
            return True
        if isinstance(v, Obj):
            for nm in ("__bool__", "__nonzero__", "__len__"):
                if v.model and nm in v.model:
                    return self.truth(v.model[nm](self, v, [], {}))
                if v.cls is not None and v.cls.find(nm):
                    return self.truth(self.call_fn(Fn(v.cls.find(nm), bound=v), [], {}))
            return True
        raise Unsupp("truth of %r" % (v,))

    def s_If(self, s):
        return self.branch(self.truth(self.eval(s.test)), s.body, s.orelse)

    def branch(self, c, body, orelse):
        if isinstance(c, bool):
            return self.block(body if c else orelse)
        saved = self.fork()
        d = len(self.frames)
        # then
        try:
            st1 = self.block(body)
        except Raised:
            st1 = (DEAD,)
            self.assumed.append(alg.bnot(c))
        f1 = self.frames[:]
        self.frames[:] = saved
        try:
            st2 = self.block(orelse)
        except Raised:
            st2 = (DEAD,)
            self.assumed.append(c)
        assert len(self.frames) == d
        k1, k2 = st1[0], st2[0]
        if k1 == DEAD and k2 == DEAD:
            raise Raised(EXC["ValueError"], "both branches raise")
        if k1 == DEAD:
            return st2
        if k2 == DEAD:
            self.frames[:] = f1
            return st1
        if k1 == RETURN and k2 == RETURN:
            memo = {}
            v = self.join(c, st1[1], st2[1], memo)
            for a, b in zip(f1, self.frames):
                self.join_frame(c, a, b, memo)
            return (RETURN, v)
        if k1 == RETURN and k2 == NORMAL:
            self.frames[-1].rets.append((c, st1[1], f1))
            return st2
        if k2 == RETURN and k1 == NORMAL:
            f2 = self.frames[:]
            self.frames[:] = f1
            self.frames[-1].rets.append((alg.bnot(c), st2[1], f2))
            return st1
        if k1 == k2 == NORMAL or (k1 == k2 and k1 in (BREAK, CONTINUE)):
            memo = {}
            for a, b in zip(f1, self.frames):
                self.join_frame(c, a, b, memo)
            return (k1,)
        if CONTINUE in (k1, k2) and NORMAL in (k1, k2):
            # remember the state of the continuing arm, joined at the end of the loop body
            if k1 == CONTINUE:
                self.loopc.append((c, f1))
                return (NORMAL,)
            f2 = self.frames[:]
            self.frames[:] = f1
            self.loopc.append((alg.bnot(c), f2))
            return (NORMAL,)
        raise Unsupp("conditional %s/%s" % (k1, k2))

    loopc = None

    def loop_body(self, body):
        outer = self.loopc
        self.loopc = []
        try:
            st = self.block(body)
            for c, snap in reversed(self.loopc):
                if st[0] in (NORMAL, CONTINUE):
                    memo = {}
                    for a, b in zip(snap, self.frames):
                        self.join_frame(c, a, b, memo)
                else:
                    raise Unsupp("conditional continue")
            return st
        finally:
            self.loopc = outer

    def s_For(self, s):
        it = self.eval(s.iter)
        xs = self.iterate(it)
        if len(xs) > 400:
            raise Unsupp("long loop")
        for x in xs:
            self.assign(s.target, x)
            st = self.loop_body(s.body)
            if st[0] == BREAK:
                return (NORMAL,)
            if st[0] == RETURN:
                return st
        return self.block(s.orelse)

    def s_While(self, s):
        n = 0
        while True:
            c = self.truth(self.eval(s.test))
            if not isinstance(c, bool):
                raise Unsupp("loop with an unknown condition")
            if not c:
                return self.block(s.orelse)
            st = self.loop_body(s.body)
            if st[0] == BREAK:
                return (NORMAL,)
            if st[0] == RETURN:
                return st
            n += 1
            if n > 400:
                raise Unsupp("long loop")

    def s_With(self, s):
        leave = []
        try:
            return self.with_block(s, leave)
        finally:
            for v in reversed(leave):
                v.model["exit"](self, v)

    def with_block(self, s, leave):
        for i in s.items:
            try:
                v = self.eval(i.context_expr)
            except Unsupp:
                v = Opaque("context manager")
            if isinstance(v, Obj) and v.cls is not None and v.cls.find("__enter__"):
                v = self.call_fn(Fn(v.cls.find("__enter__"), bound=v), [], {})
            if isinstance(v, Obj) and v.model and "exit" in v.model:
                leave.append(v)
                v = v.model.get("enter", v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        return self.block(s.body)

    def s_Try(self, s):
        saved = None
        try:
            st = self.block(s.body)
            if st[0] == NORMAL and s.orelse:
                st = self.block(s.orelse)
        except Raised as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    ok = any(ast.unparse(t).split(".")[-1] in e.names for t in ts)
                if ok:
                    if h.name:
                        self.fr.vars[h.name] = Opaque("exception")
                        self.fr.vars[h.name].exc = e
                    fr = self.fr
                    was = getattr(fr, "handling", None)
                    fr.handling = e
                    try:
                        st = self.block(h.body)
                    except Raised:
                        fr.handling = was
                        if s.finalbody:
                            self.block(s.finalbody)
                        raise
                    fr.handling = was
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody)
                raise
        if s.finalbody:
            f = self.block(s.finalbody)
            if f[0] != NORMAL:
                return f
        return st

    # --- names ---------------------------------------------------------------------
    def lookup(self, n):
        f = self.fr
        while f is not None:
            if n in f.vars and n not in f.globals_:
                return f.vars[n]
            f = f.parent
        return self.global_(self.fr.mod, n)

    def global_(self, mod, n):
        k = mod.name + "." + n
        if k in self.overrides:
            return self.overrides[k]
        if k in self.hooks:
            return Native(self.hooks[k], k)
        r = self.proj.resolve_name(mod, n)
        if r is None:
            import builtins
            if n == "Ellipsis":
                return Ellipsis
            if n == "NotImplemented":
                return NotImplemented
            if hasattr(builtins, n) or n in ("unicode", "xrange", "basestring", "izip"):
                return Ext("builtins." + n)
            raise Unsupp("unknown name %s" % n)
        return self.from_resolved(r)

    def from_resolved(self, r):
        if isinstance(r, Func):
            k = r.qual
            return Fn(r)
        if isinstance(r, (Cls, Mod)):
            return r
        if r[0] == "ext":
            return Ext(r[1])
        _, m, name = r
        k = m.name + "." + name
        if k in self.overrides:
            return self.overrides[k]
        if k in self.hooks:
            return Native(self.hooks[k], k)
        if k in self.gcache:
            return self.gcache[k]
        exprs = m.globals[name]
        v = None
        fr = Frame(m)
        self.gcache[k] = Opaque("recursive global")
        err = None
        for e in reversed(exprs):       # the last binding wins; except branches come first
            try:
                v = self.eval_in(e, fr)
                err = None
                break
            except (Unsupp, Raised) as x:
                err = x
        if err is not None:
            v = Opaque("global %s: %s" % (k, err))
        self.gcache[k] = v
        if isinstance(v, Obj) and v.cls is not None:
            self.module_effects(m, name, v)
        return v

    def module_effects(self, m, name, v):
        """method calls on a module level object made while the module is imported"""
        def walk(body):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                        isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
                        s.value.func.value.id == name:
                    self.eval_in(s.value, Frame(m))
                elif isinstance(s, ast.If):
                    t = None
                    if any(isinstance(x, ast.Name) and x.id == name for b in (s.body, s.orelse) for y in b
                           for x in ast.walk(y)):
                        t = self.truth(self.eval_in(s.test, Frame(m)))
                    if t is True:
                        walk(s.body)
                    elif t is False:
                        walk(s.orelse)
                    elif t is not None:
                        raise Unsupp("undecided import time branch")
                elif isinstance(s, (ast.Try, ast.With)):
                    walk(s.body)
        walk(m.tree.body)

    def eval_in(self, e, frame):
        self.frames.append(frame)
        d = len(self.frames)
        try:
            return self.eval(e)
        finally:
            del self.frames[d - 1:]

    # --- expressions -----------------------------------------------------------------
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupp("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return P.of(v)
        if isinstance(v, complex):
            from . import npmodel
            return P.of(v.real) + P.of(v.imag) * npmodel.IMAG.p
        return v

    def e_Num(self, e):
        return P.of(e.n) if isinstance(e.n, float) else e.n

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.elts(e.elts)

    def e_Set(self, e):
        return set(self.key(x) for x in self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v))
            else:
                d[self.key(self.eval(k))] = self.eval(v)
        return d

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.eval(x)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e):
        return self.eval(e.value)

    def e_Lambda(self, e):
        return Fn(Func(self.fr.mod, None, e, parent=self.fr.func), frame=self.fr)

    def e_JoinedStr(self, e):
        return Opaque("f-string")

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        try:
            a = self.eval(e.body)
        except Raised:
            return self.eval(e.orelse)
        try:
            b = self.eval(e.orelse)
        except Raised:
            return a
        return self.join(c, a, copy_val(b), {})

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            c = self.truth(v)
            if isinstance(c, bool):
                if acc is None:
                    if c != isand:
                        return v
                    if i == len(e.values) - 1:
                        return v
                    continue
                if c != isand:
                    return c
                continue
            acc = c if acc is None else (alg.band(acc, c) if isand else alg.bor(acc, c))
        return acc

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return alg.bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, complex):
                return -v
            if isinstance(v, Obj) and v.cls is not None and v.cls.find("__neg__"):
                return self.call_fn(Fn(v.cls.find("__neg__"), bound=v), [], {})
            return self.unary(v, lambda x: -P.of(x) if not isinstance(x, int) else -x)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.unary(v, lambda x: alg.bnot(x) if isinstance(x, (bool, B)) else
                              (~x if isinstance(x, int) else -P.of(x) - 1))
        raise Unsupp("unary")

    def unary(self, v, f):
        if isinstance(v, Obj):
            if v.model and "__map__" in v.model:
                return v.model["__map__"](self, v, lambda x: self.unary(x, f))
            raise Unsupp("unary on object")
        if isinstance(v, A):
            return elementwise(f, v)
        if isnum(v) or isinstance(v, (B, bool)):
            return f(v)
        raise Unsupp("unary on %r" % (v,))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if isinstance(e.op, ast.Div) and self.fr.mod.path.endswith((".pyx", ".pxd")) and \
                c_int_literal(e.left) and c_int_literal(e.right):
            return self.binop("//", a, b)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Obj) and a.model and "__binop__" in a.model:
            return a.model["__binop__"](self, op, a, b)
        if isinstance(b, Obj) and b.model and "__binop__" in b.model:
            return b.model["__binop__"](self, op, a, b)
        if isinstance(a, str):
            if op == "+" and isinstance(b, str):
                return a + b
            if op == "*" and isinstance(b, int):
                return a * b
            if op == "%":
                bs = b if isinstance(b, tuple) else (b,)
                bs = tuple(x if isinstance(x, (str, int)) else asint(x) if isinstance(x, P) else None for x in bs)
                if None not in bs:
                    try:
                        return a % bs
                    except (TypeError, ValueError):
                        raise Raised(EXC["TypeError"], "format")
                return Opaque("formatted string")
            return Opaque("string")
        if isinstance(a, Opaque) and isinstance(b, (str, Opaque)) or isinstance(b, Opaque) and isinstance(a, str):
            return Opaque("string?")
        if isinstance(a, (list, tuple)) and op == "+" and isinstance(b, (list, tuple)):
            return a + b
        if isinstance(a, (list, tuple)) and op == "*" and isinstance(b, P) and asint(b) is not None:
            b = asint(b)
        if isinstance(a, (list, tuple)) and op == "*" and isinstance(b, int):
            return a * b
        if isinstance(b, (list, tuple)) and op == "*" and isinstance(a, int) and not isinstance(a, bool):
            return a * b
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
        if op == "@":
            return self.ext["numpy.matmul"](self, [a, b], {})
        if isinstance(a, (list, tuple)) and isinstance(b, A):
            a = arr(a)
        if isinstance(b, (list, tuple)) and isinstance(a, A):
            b = arr(b)
        for nm, o, args in (("__%s__" % DUNDER.get(op, ""), a, [b]), ("__r%s__" % DUNDER.get(op, ""), b, [a])):
            if isinstance(o, Obj) and o.cls is not None:
                if o is b and isinstance(a, A):
                    from . import npmodel
                    w = npmodel.wrapper([b])
                    if w is not None:
                        return npmodel.rewrap(self, w, self.binop(op, a, npmodel.toarr(self, b)))
                m = o.cls.find(nm)
                if m is not None:
                    r = self.call_fn(Fn(m, bound=o), args, {})
                    if r is not NotImplemented and not (isinstance(r, Ext) and r.name == "builtins.NotImplemented"):
                        return r
        for x in (a, b):
            if not (isnum(x) or isinstance(x, (A, B, bool))):
                raise Unsupp("%s on %r" % (op, x))
        return elementwise(lambda x, y: binop(op, x, y), a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.cmp(op, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            acc = alg.band(acc, c)
            if acc is False:
                return False
            left = right
        return acc

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is b:
                    r = True
                elif a is None or b is None:
                    if isinstance(a, Opaque) and isinstance(b, Opaque):
                        raise Unsupp("identity of an unknown value")
                    raise Unsupp("identity of an unknown value")
                else:
                    raise Unsupp("identity of an unknown value")
            elif isinstance(a, (bool, type(None), str, int)) and isinstance(b, (bool, type(None), str, int)):
                r = a is b or (type(a) is type(b) and a == b)
            elif isinstance(a, (Ext, Fn)) and isinstance(b, (Ext, Fn)):
                r = (a == b) if isinstance(a, Ext) else (isinstance(b, Fn) and a.func is b.func)
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else alg.bnot(r)
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">="}[type(op)]
        if isinstance(a, Obj) and a.model and "__compare__" in a.model:
            return a.model["__compare__"](self, o, a, b)
        if isinstance(b, Obj) and b.model and "__compare__" in b.model:
            return b.model["__compare__"](self, o, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupp("comparison of %r %r" % (a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, A):
            a = arr(a)
        if isinstance(b, (list, tuple)) and isinstance(a, A):
            b = arr(b)
        for x, y, nm in ((a, b, CMPD[o][0]), (b, a, CMPD[o][1])):
            if isinstance(x, Obj) and x.cls is not None and x.cls.find(nm):
                return self.call_fn(Fn(x.cls.find(nm), bound=x), [y], {})
        num = lambda x: isnum(x) or isinstance(x, (A, B, bool))
        if num(a) and num(b):
            return elementwise(lambda x, y: compare(o, x, y), a, b)
        if o in ("==", "!="):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if type(a) is not type(b) or len(a) != len(b):
                    r = False
                else:
                    r = True
                    for x, y in zip(a, b):
                        r = alg.band(r, self.truth(self.cmp(ast.Eq(), x, y)))
            else:
                try:
                    r = bool(a == b)
                except Exception:
                    raise Unsupp("equality")
            return r if o == "==" else alg.bnot(r)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            ia, ib = [asint(x) for x in a], [asint(x) for x in b]
            if None in ia or None in ib:
                raise Unsupp("ordering")
            return {"<": ia < ib, ">": ia > ib, "<=": ia <= ib, ">=": ia >= ib}[o]
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
        raise Unsupp("comparison")

    def contains(self, x, c):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupp("in")
        if isinstance(c, dict):
            return self.key(x) in c
        if isinstance(c, (list, tuple, set, frozenset)):
            acc = False
            for y in c:
                if x is y:
                    return True
                acc = alg.bor(acc, self.truth(self.cmp(ast.Eq(), x, y)))
            return acc
        if isinstance(c, Obj) and c.model and "__contains__" in c.model:
            return c.model["__contains__"](self, c, [x], {})
        if isinstance(c, Obj) and c.cls is not None and c.cls.find("__contains__"):
            return self.call_fn(Fn(c.cls.find("__contains__"), bound=c), [x], {})
        if isinstance(c, A):
            acc = False
            for y in c.a.reshape(-1):
                acc = alg.bor(acc, compare("==", x, y))
            return acc
        raise Unsupp("in %r" % (c,))

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, n):
        if isinstance(o, Obj):
            if o.model and n in o.model:
                v = o.model[n]
                if isinstance(v, Native):
                    return Native(lambda it, a, k, v=v, o=o: v.f(it, [o] + list(a), k), n)
                if n == "__array__":
                    return Native(lambda it, a, k, v=v, o=o: v(it, o), n)
                if callable(v) and not isinstance(v, (Fn, Ext, P, A, B)):
                    return v(self, o)
                return v
            if n in o.attrs:
                return o.attrs[n]
            if o.cls is not None:
                m = o.cls.find(n)
                if m is not None:
                    if m.is_property:
                        return self.call_fn(Fn(m, bound=o), [], {})
                    if m.is_classmethod:
                        return Fn(m, bound=o.cls)
                    if m.is_static:
                        return Fn(m)
                    return Fn(m, bound=o)
                c, x = o.cls.find_attr(n)
                if c is not None:
                    if (c.qual, n) in self.clsattrs:
                        return self.clsattrs[c.qual, n]
                    return self.eval_in(x, Frame(c.mod))
            if n == "__class__" and o.cls is not None:
                return o.cls
            if o.model and "__getattr__" in o.model:
                return o.model["__getattr__"](self, o, n)
            if o.cls is not None and o.cls.find("__getattr__") is not None and not n.startswith("__"):
                return self.call_fn(Fn(o.cls.find("__getattr__"), bound=o), [n], {})
            if o.cls is not None and all(b == "object" for q in o.cls.mro() for b in q.ext_bases) \
                    and o.cls.find("__getattr__") is None:
                raise Raised(EXC["AttributeError"], n)
            raise Unsupp("attribute %s of %r" % (n, o))
        if isinstance(o, Mod):
            k = o.name + "." + n
            if k in self.overrides:
                return self.overrides[k]
            if k in self.hooks:
                return Native(self.hooks[k], k)
            r = self.proj.resolve_name(o, n)
            if r is None:
                r = self.proj.mods.get(k)
            if r is None:
                raise Unsupp("unknown %s" % k)
            return self.from_resolved(r)
        if isinstance(o, Cls):
            m = o.find(n)
            if m is not None:
                return Fn(m, bound=o if m.is_classmethod else None)
            c, x = o.find_attr(n)
            if c is not None:
                if (c.qual, n) in self.clsattrs:
                    return self.clsattrs[c.qual, n]
                return self.eval_in(x, Frame(c.mod))
            if n == "__name__":
                return o.name
            if n == "__subclasses__":
                return Native(lambda it, a, k: it.subclasses(o), n)
            if all(b == "object" for q in o.mro() for b in q.ext_bases):
                raise Raised(EXC["AttributeError"], "%s has no attribute %s" % (o.name, n))
            raise Unsupp("class attribute %s" % n)
        if isinstance(o, Ext):
            full = o.name + "." + n
            from . import npmodel
            if full in npmodel.CONST:
                return npmodel.CONST[full]
            return Ext(full)
        if isinstance(o, A):
            from . import npmodel
            return npmodel.attr(self, o, n)
        if isnum(o) or isinstance(o, (bool, B)):
            from . import npmodel
            if n == "real":
                return npmodel.re_part(o) if npmodel.is_cplx(o) else o
            if n == "imag":
                return npmodel.im_part(o) if npmodel.is_cplx(o) else alg.ZERO
            if n == "dtype":
                return npmodel.dt("f8")
            if n == "shape":
                return ()
            return npmodel.attr(self, scalar_arr(o), n)
        if isinstance(o, str) and type(o) is not str and n == "type":
            return Ext("numpy." + o.name)
        if isinstance(o, str) and type(o) is not str and n in ("name", "kind", "char", "str", "itemsize"):
            return getattr(o, n)
        if isinstance(o, str) and n in STRM or isinstance(o, list) and n in LISTM or \
                isinstance(o, dict) and n in DICTM or isinstance(o, tuple) and n in ("index", "count") or \
                isinstance(o, set) and n in ("add", "update", "union", "discard", "remove", "copy"):
            return Native(lambda it, a, k, o=o, n=n: it.pymethod(o, n, a, k), n)
        if n == "__len__" and isinstance(o, (list, tuple, dict, set, str)):
            return Native(lambda it, a, k, o=o: len(o), n)
        if isinstance(o, slice) and n == "indices":
            def indices(it, a, k, o=o):
                v = [None if x is None else asint(x) for x in (o.start, o.stop, o.step)]
                if asint(a[0]) is None or any(x is None and y is not None
                                              for x, y in zip(v, (o.start, o.stop, o.step))):
                    raise Unsupp("bounds of a slice that are not decided")
                return tuple(slice(*v).indices(asint(a[0])))
            return Native(indices, n)
        if isinstance(o, slice):
            if n not in ("start", "stop", "step"):
                raise Raised(EXC["AttributeError"], n)
            return getattr(o, n)
        if (o is Ellipsis or o is NotImplemented) and not n.startswith("__"):
            raise Raised(EXC["AttributeError"], n)
        if n == "__iter__" and isinstance(o, (list, tuple, dict, set)):
            return Native(lambda it, a, k, o=o: list(o), n)
        if isinstance(o, Fn) and n == "__name__":
            return o.func.name
        if isinstance(o, Opaque):
            return Opaque(o.why + "." + n)
        if (o is None or isinstance(o, (str, list, dict, tuple, set, bytes, int, float))) and \
                not hasattr(o, n):
            raise Raised(EXC["AttributeError"], n)
        raise Unsupp("attribute %s of %r" % (n, o))

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for m in sorted(self.proj.mods.values(), key=lambda m: m.name):
                for x in m.classes.values():
                    for b in x.bases:
                        self._subs.setdefault(b, []).append(x)
        return list(self._subs.get(c, ()))

    _subs = None

    def pymethod(self, o, n, a, k):
        if isinstance(o, str):
            if n == "join":
                xs = self.iterate(a[0])
                return o.join(xs) if all(isinstance(x, str) for x in xs) else Opaque("string")
            if n == "format":
                def num(x):
                    c = asint(x) if isinstance(x, P) else None
                    if isinstance(x, (Ext, Cls)):
                        return "<class '%s'>" % (x.name if isinstance(x, Ext) else x.qual)
                    return x if c is None else c
                a = [num(x) for x in a]
                k = {q: num(x) for q, x in k.items()}
                if self.written is not None:
                    a = [self.written(x) for x in a]
                    k = {q: self.written(x) for q, x in k.items()}
                if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                    return o.format(*a, **k)
                return Opaque("string")
            if any(isinstance(x, Opaque) for x in a):
                return Opaque("string")
            return getattr(o, n)(*[tuple(x) if isinstance(x, list) else x for x in a])
        if isinstance(o, list):
            if n in ("index", "remove"):
                for i, y in enumerate(o):
                    t = self.truth(self.cmp(ast.Eq(), a[0], y))
                    if t is True:
                        return i if n == "index" else [o.pop(i)][1:] or None
                    if t is not False:
                        raise Unsupp("index of a symbolic value")
                raise Raised(EXC["ValueError"], "index")
            if n in ("pop", "insert") and a:
                i = asint(a[0])
                if i is None:
                    raise Unsupp("symbolic position")
                a = [i] + list(a[1:])
            if n == "sort":
                o[:] = self.ext["builtins.sorted"](self, [list(o)], k)
                return None
            if n == "extend":
                a = [self.iterate(a[0])]
            if n == "pop":
                try:
                    return o.pop(*a)
                except IndexError:
                    raise Raised(EXC["IndexError"])
            return getattr(o, n)(*a)
        if isinstance(o, dict):
            if n in ("keys", "values", "items"):
                return list(getattr(o, n)())
            if n in ("get", "pop", "setdefault"):
                a = [self.key(a[0])] + list(a[1:])
            if n == "pop" and len(a) == 1 and a[0] not in o:
                raise Raised(EXC["KeyError"])
            if n == "update":
                for x in a:
                    o.update(x if isinstance(x, dict) else dict(self.iterate(x)))
                o.update(k)
                return None
            return getattr(o, n)(*a, **k)
        if isinstance(o, tuple):
            return getattr(o, n)(*a)
        return getattr(o, n)(*a)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(o, Fn) or isinstance(o, Native) and self.fr.mod.path.endswith((".pyx", ".pxd")):
            return o        # specialisation of a fused function
        k = self.eval(e.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, Obj) and o.model and "__getitem__" in o.model:
            return o.model["__getitem__"](self, o, [k], {})
        if isinstance(o, Obj) and o.cls is not None and o.cls.find("__getitem__"):
            return self.call_fn(Fn(o.cls.find("__getitem__"), bound=o), [k], {})
        if isinstance(o, A):
            r = index(o, k)
            if o.dtype is not None and str(o.dtype)[:1] in "iu":
                if isinstance(r, A):
                    r.dtype = o.dtype
                elif isinstance(r, P) and asint(r) is not None:
                    return asint(r)
            return r
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o:
                r = Raised(EXC["KeyError"], repr(kk))
                r.explicit = isinstance(kk, (str, int))
                raise r
            return o[kk]
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                b = []
                for q in (k.start, k.stop, k.step):
                    c = None if q is None else asint(q)
                    if q is not None and c is None:
                        raise Unsupp("symbolic slice of a list")
                    b.append(c)
                return o[slice(*b)]
            i = asint(k)
            if i is None:
                if isinstance(k, (P, B)):
                    raise Unsupp("symbolic list index")
                raise Raised(EXC["TypeError"], "list index")
            try:
                return o[i]
            except IndexError:
                raise Raised(EXC["IndexError"])
        if isinstance(o, Ext) and o.name in ("numpy.s_", "numpy.index_exp"):
            return k
        if isinstance(o, Opaque):
            return Opaque(o.why + "[]")
        raise Unsupp("subscript of %r" % (o,))

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (str, dict, range)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, A):
            if v.ndim == 0:
                raise Raised(EXC["TypeError"], "0-d")
            if v.sym[0] is not None:
                raise Unsupp("iterating a symbolic axis")
            return [index(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, Obj) and v.model and "__iter__" in v.model:
            return v.model["__iter__"](self, v, [], {})
        if isinstance(v, Obj) and v.cls is not None and v.cls.find("__iter__"):
            return self.iterate(self.call_fn(Fn(v.cls.find("__iter__"), bound=v), [], {}))
        if isinstance(v, (int, Fraction, slice)):
            raise Raised(EXC["TypeError"], "it is not iterable")
        raise Unsupp("iterating %r" % (v,))

    def e_Call(self, e):
        # super().__init__ style
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.super_call(e)
        if isinstance(e.func, ast.Name) and e.func.id in ("__cast__", "__addr__"):
            if e.func.id == "__addr__" and isinstance(e.args[0], ast.Name):
                v = self.fr.vars.get(e.args[0].id)
                if v is None or isinstance(v, (P, int, float, Fraction)):
                    return Obj(model=ref_model(self.fr, e.args[0].id))
            v = self.eval(e.args[-1])
            if e.func.id == "__cast__" and isinstance(e.args[0], ast.Constant):
                t = str(e.args[0].value)
                if isinstance(v, P) and any(w in t for w in ("int", "long", "size_t")):
                    c = v.const()
                    if c is not None:
                        return int(c)
                    if len(v.t) == 1:
                        (m, k), = v.t.items()
                        if k == 1 and len(m) == 1 and m[0][1] == 1 and \
                                alg._ATOMS[m[0][0]].name in ("floor", "ceil", "int"):
                            return v
                    return alg.fn("int", (v,))
            return v
        f = self.eval(e.func)
        args = self.elts(e.args)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if not isinstance(d, dict):
                    raise Unsupp("** of %r" % (d,))
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(f, args, kwargs)

    def super_call(self, e):
        fr = self.fr
        while fr is not None and (fr.func is None or fr.func.cls is None):
            fr = fr.parent
        if fr is None:
            raise Unsupp("super")
        slf = fr.vars.get(fr.func.params[0]) if fr.func.params else None
        cls = slf.cls if isinstance(slf, Obj) else slf
        if not isinstance(cls, Cls):
            raise Unsupp("super of %r" % (slf,))
        mro = [c for c in cls.mro()]
        quals = [c.qual for c in mro]
        i = quals.index(fr.func.cls.qual)
        args = self.elts(e.args)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value))
            else:
                kwargs[k.arg] = self.eval(k.value)
        for c in mro[i + 1:]:
            if e.func.attr in c.methods:
                return self.call_fn(Fn(c.methods[e.func.attr], bound=slf), args, kwargs)
        if e.func.attr == "__init__":
            return None
        raise Unsupp("super().%s" % e.func.attr)

    def comp(self, e, leaf):
        out = []

        def rec(i):
            if i == len(e.generators):
                out.append(leaf())
                return
            g = e.generators[i]
            for x in self.iterate(self.eval(g.iter)):
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c))
                    if not isinstance(t, bool):
                        raise Unsupp("filter with an unknown condition")
                    ok = ok and t
                if ok:
                    rec(i + 1)
        fr = Frame(self.fr.mod, self.fr, self.fr.func, self.fr.cls)
        # the comprehension scope sees the enclosing function as parent
        self.frames.append(fr)
        d = len(self.frames)
        try:
            rec(0)
        finally:
            del self.frames[d - 1:]
        return out

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.eval(e.elt))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return set(self.key(x) for x in self.comp(e, lambda: self.eval(e.elt)))

    def e_DictComp(self, e):
        return dict(self.comp(e, lambda: (self.key(self.eval(e.key)), self.eval(e.value))))

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        f = self.fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        if f.yields is None:
            raise Unsupp("yield")
        f.yields.append(v)
        return None

    def e_YieldFrom(self, e):
        self.fr.yields.extend(self.iterate(self.eval(e.value)))

    def e_Starred(self, e):
        raise Unsupp("starred")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v


CMPD = {"==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__"), "<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"),
        "<=": ("__le__", "__ge__"), ">=": ("__ge__", "__le__")}
DUNDER = {"<<": "lshift", ">>": "rshift", "+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "%": "mod", "//": "floordiv",
          "&": "and", "|": "or", "^": "xor"}


def copy_val(v):
    return v.copy() if isinstance(v, A) else v


def walk_own(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def as_load(t):
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
