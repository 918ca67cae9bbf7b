"""Canonical normal form of scalar expressions, the value domain of the value
numbering in interp.py: multivariate polynomials with rational coefficients over
interned atoms (variables, grid reads, roots, trigonometric and uninterpreted
functions, gated joins, denominators).  Two expressions denote the same value when
the normal form of their difference is zero after clearing denominators."""
from __future__ import annotations
import hashlib
import math
import time
from fractions import Fraction

_ATOMS = []          # id -> Atom
_INTERN = {}
_FN = {}             # (name, nargs) -> [(args, atom)]


class Atom:
    __slots__ = ("id", "kind", "name", "args")

    def __init__(self, kind, name, args):
        self.kind, self.name, self.args = kind, name, args
        self.id = len(_ATOMS)
        _ATOMS.append(self)

    def __repr__(self):
        return show_atom(self)


def _atom(kind, name, args, key):
    k = (kind, name, key)
    a = _INTERN.get(k)
    if a is None:
        a = _INTERN[k] = Atom(kind, name, args)
    return a


class TooBig(Exception):
    pass


LIMIT = 40000


class P:
    __slots__ = ("t", "_h")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._h = None

    # construction
    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fraction)):
            return P({(): Fraction(x)}) if x else ZERO
        if isinstance(x, float):
            return P.of(fl(x))
        raise TypeError("not a number: %r" % (x,))

    def const(self):
        """Fraction when constant, else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    @property
    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key)

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        c = self.const()
        if c is None:
            raise TypeError("truth value of a symbolic number")
        return bool(c)

    # arithmetic
    def __add__(self, o):
        try:
            o = P.of(o)
        except TypeError:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                del t[m]
        return P(t)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        try:
            return self + (-P.of(o))
        except TypeError:
            return NotImplemented

    def __rsub__(self, o):
        try:
            return P.of(o) - self
        except TypeError:
            return NotImplemented

    def __mul__(self, o):
        try:
            o = P.of(o)
        except TypeError:
            return NotImplemented
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > LIMIT:
            raise TooBig()
        out = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = mono_mul(m1, m2)
                c = c1 * c2
                if red is None:
                    n = out.get(m, 0) + c
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
                else:
                    q = P({m: c})
                    for r in red:
                        q = q * r
                    extra = q if extra is None else extra + q
        r = P(out)
        return r if extra is None else r + extra
    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            return fn("inf", ())
        if len(self.t) == 1:
            (m, c), = self.t.items()
            q = P({(): 1 / c})
            for a, e in m:
                q = q * atom_pow(_ATOMS[a], -e)
            return q
        # factor out the common monomial and the leading coefficient
        g = None
        for m in self.t:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {a: min(e, d.get(a, 0)) for a, e in g.items()} | \
                    {a: min(0, e) for a, e in d.items() if a not in g}
        g = {a: e for a, e in (g or {}).items() if e}
        body = self
        if g:
            gm = P({tuple(sorted((a, -e) for a, e in g.items())): Fraction(1)})
            body = P({_shift_mono(m, g): c for m, c in self.t.items()})
            del gm
        lead = body.t[min(body.t)]
        body = P({m: c / lead for m, c in body.t.items()})
        a = sum_atom(body)
        q = P({((a.id, -1),): 1 / lead})
        for b, e in g.items():
            q = q * atom_pow(_ATOMS[b], -e)
        return q

    def __truediv__(self, o):
        try:
            o = P.of(o)
        except TypeError:
            return NotImplemented
        c = o.const()
        if c:
            return P({m: k / c for m, k in self.t.items()})
        return self * o.inv()

    def __rtruediv__(self, o):
        try:
            return P.of(o) / self
        except TypeError:
            return NotImplemented

    def __pow__(self, e):
        return power(self, P.of(e))

    def __rpow__(self, b):
        return power(P.of(b), self)

    def __abs__(self):
        return fabs(self)

    def __eq__(self, o):
        try:
            return self.key == P.of(o).key
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def _shift_mono(m, g):
    d = dict(m)
    for a, e in g.items():
        n = d.get(a, 0) - e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def fl(x):
    """the rational a decimal literal denotes"""
    return Fraction(repr(x)) if x == x and abs(x) != float("inf") else Fraction(0)


def mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    red = None
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    for a in list(d):
        at = _ATOMS[a]
        e = d[a]
        if at.kind == "sqrt" and (e >= 2 or e < 0):
            k = e // 2
            d[a] = e - 2 * k
            if not d[a]:
                del d[a]
            red = red or []
            red.append(at.args[0] ** k)
        elif at.kind == "fn" and at.name == "cos" and e >= 2:
            d[a] = e - 2
            if not d[a]:
                del d[a]
            s = fn("sin", at.args)
            red = red or []
            red.append(ONE - s * s)
        elif at.kind == "fn" and at.name == "sign" and e >= 2:
            d[a] = e % 2
            if not d[a]:
                del d[a]
        elif at.kind == "fn" and at.name == "abs" and (e >= 2 or e <= -2):
            d[a] = e % 2
            if not d[a]:
                del d[a]
            red = red or []
            red.append(at.args[0] ** (e - e % 2))
        elif at.kind == "phi" and (e >= 2 or e <= -2):
            c, x, y = at.args
            del d[a]
            red = red or []
            if e < 0 and not (x.t and y.t):
                d[a] = e
                continue
            red.append(phi(c, ipow(x, e) if e > 0 else ipow(x.inv(), -e),
                           ipow(y, e) if e > 0 else ipow(y.inv(), -e)))
    return tuple(sorted(d.items())), red


def atom_p(a):
    return P({((a.id, 1),): Fraction(1)})


def atom_pow(a, e):
    if e == 0:
        return ONE
    if a.kind == "sum" and e > 0:
        return a.args[0] ** e
    if a.kind == "sqrt" and (e < 0 or e > 1):
        k = e // 2
        q = a.args[0] ** k
        return q * atom_p(a) if e - 2 * k else q
    return P({((a.id, e),): Fraction(1)}) if not (a.kind == "fn" and e > 1) else ipow(atom_p(a), e)


def ipow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def sum_atom(body):
    return _atom("sum", "", (body,), body.key)


def var(name):
    return atom_p(_atom("var", name, (), None))


def at(array, idx, offs):
    """read of a grid array: concrete indices and per axis offsets"""
    offs = tuple(sorted(o for o in offs))
    return atom_p(_atom("at", array, (tuple(idx), offs), (tuple(idx), offs)))


def isqrt_frac(c):
    import math
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def content(p):
    """positive rational c with p = c * primitive"""
    import math
    n = 0
    d = 1
    for c in p.t.values():
        n = math.gcd(n, abs(c.numerator))
        d = d * c.denominator // math.gcd(d, c.denominator)
    return Fraction(n, d) if n else Fraction(1)


def sqrt(p):
    p = P.of(p)
    c = p.const()
    if c is not None and c >= 0:
        r = isqrt_frac(c)
        if r is not None:
            return P.of(r)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = ONE
        rest = ONE
        for a, e in m:
            at_ = _ATOMS[a]
            if e % 2 == 0:
                h = e // 2
                base = atom_pow(at_, abs(h))
                b = fabs(base) if abs(h) % 2 else base
                out = out * (b if h > 0 else b.inv())
            else:
                rest = rest * atom_pow(at_, e)
        if c > 0:
            r = isqrt_frac(c)
            if r is not None:
                out = out * r
            elif rest.const() == 1:
                return out * sqrt_atom(P.of(c))
            else:
                out = out * sqrt_atom(P.of(c))
        else:
            rest = rest * c
        if rest.const() == 1:
            return out
        return out * sqrt_atom(rest)
    num, den = cancel(p)
    if den:
        out = ONE
        for a, k in den.items():
            body = _ATOMS[a].args[0]
            if nonneg(body):
                out = out * (ipow(body.inv(), k // 2) * (sqrt(body).inv() if k % 2 else ONE))
                continue
            if k % 2:
                num = num * body
            out = out * ipow(fabs(body).inv(), (k + 1) // 2)
        return out * sqrt(num)
    p = num
    if len(p.t) == 1:
        return sqrt(p)
    k = content(p)
    q = P({m: c / k for m, c in p.t.items()})
    out = sqrt(P.of(k)) if k != 1 else ONE
    # common even powers
    g = None
    for m in q.t:
        d = dict(m)
        g = dict(d) if g is None else \
            {a: min(g.get(a, 0), d.get(a, 0)) for a in set(g) | set(d)}
    g = {a: e - e % 2 for a, e in g.items() if e >= 2 or e < 0}
    if g:
        q = P({_shift_mono(m, g): c for m, c in q.t.items()})
        out = out * sqrt(P({tuple(sorted(g.items())): Fraction(1)}))
        return out * sqrt(q)
    # powers of 1 - sin^2 = cos^2
    for a in sorted({a for m in q.t for a, e in m if e >= 2}):
        at_ = _ATOMS[a]
        if at_.kind == "fn" and at_.name == "sin" and isinstance(at_.args[0], P):
            body = ONE - ipow(atom_p(at_), 2)
            r = divexact(q, body)
            if r is not None:
                return out * fabs(fn("cos", at_.args)) * sqrt(r)
    r = perfect_sqrt(q)
    if r is not None:
        return out * fabs(r)
    return out * sqrt_atom(q)


def _order(m, atoms):
    d = dict(m)
    return tuple(d.get(a, 0) for a in atoms)


def divexact(p, b):
    """polynomial q with q*b = p, or None"""
    if len(p.t) > 400 or not b.t:
        return None
    if any(e < 0 for m in p.t for a, e in m) or any(e < 0 for m in b.t for a, e in m):
        return None
    atoms = sorted({a for m in list(p.t) + list(b.t) for a, _ in m}, reverse=True)
    bat = {a for m in b.t for a, _ in m}
    if not bat <= {a for m in p.t for a, _ in m}:
        return None
    lb = max(b.t, key=lambda m: _order(m, atoms))
    ob = _order(lb, atoms)
    rest = dict(p.t)
    q = {}
    for _ in range(800):
        if not rest:
            break
        lm = max(rest, key=lambda m: _order(m, atoms))
        om = _order(lm, atoms)
        if any(x < y for x, y in zip(om, ob)):
            return None
        m = tuple(sorted((a, x - y) for a, x, y in zip(atoms, om, ob) if x != y))
        c = rest[lm] / b.t[lb]
        q[m] = q.get(m, 0) + c
        for bm, bc in b.t.items():
            d = dict(bm)
            for a, e in m:
                d[a] = d.get(a, 0) + e
            k = tuple(sorted(d.items()))
            v = rest.get(k, 0) - c * bc
            if v:
                rest[k] = v
            else:
                rest.pop(k, None)
    if rest:
        return None
    q = P(q)
    try:
        return q if (q * b).key == p.key else None
    except TooBig:
        return None


def perfect_sqrt(p):
    """q with q*q = p, or None"""
    if len(p.t) > 60 or len(p.t) < 3 or any(e < 0 for m in p.t for a, e in m):
        return None
    atoms = sorted({a for m in p.t for a, _ in m}, reverse=True)
    lm = max(p.t, key=lambda m: _order(m, atoms))
    c = isqrt_frac(p.t[lm]) if p.t[lm] > 0 else None
    if c is None or any(e % 2 for a, e in lm):
        return None
    q0 = {tuple((a, e // 2) for a, e in lm): c}
    (m0, c0), = q0.items()
    o0 = _order(m0, atoms)
    q = P(q0)
    for _ in range(24):
        r = p - q * q
        if not r.t:
            return q
        m1 = max(r.t, key=lambda m: _order(m, atoms))
        o1 = _order(m1, atoms)
        if any(x < y for x, y in zip(o1, o0)):
            return None
        m = tuple(sorted((a, x - y) for a, x, y in zip(atoms, o1, o0) if x != y))
        if m in q.t:
            return None
        q = q + P({m: r.t[m1] / (2 * c0)})
    return None


def cancel(p):
    """p = numerator / product of sums, common factors removed: (numerator, {atom: power})"""
    den = {}
    for _ in range(40):
        best = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and _ATOMS[a].kind == "sum":
                    best[a] = min(best.get(a, 0), e)
        if not best:
            break
        a = max(best)
        k = -best[a]
        body = _ATOMS[a].args[0]
        pw = {0: ONE}
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0) + k
            if e not in pw:
                pw[e] = ipow(body, e)
            out = out + P({tuple(sorted(d.items())): c}) * pw[e]
        p = out
        den[a] = den.get(a, 0) + k
    for a in list(den):
        body = _ATOMS[a].args[0]
        while den[a]:
            q = divexact(p, body)
            if q is None:
                break
            p = q
            den[a] -= 1
        if not den[a]:
            del den[a]
    return p, den


def simplify(p):
    num, den = cancel(p)
    for a, k in den.items():
        num = num * atom_pow(_ATOMS[a], -k)
    return num


def sqrt_atom(p):
    return atom_p(_fn_atom("sqrt", "sqrt", (p,)))


def _same_args(a, b):
    for x, y in zip(a, b):
        if isinstance(x, P) and isinstance(y, P):
            if not same(x, y):
                return False
        elif x != y:
            return False
    return True


def _fn_atom(kind, name, args):
    key = tuple(a.key if isinstance(a, P) else a for a in args)
    k = (kind, name, key)
    hit = _INTERN.get(k)
    if hit is not None:
        return hit
    lst = _FN.setdefault((kind, name, len(args)), [])
    for oargs, atom in lst:
        if _same_args(args, oargs):
            _INTERN[k] = atom
            return atom
    a = _atom(kind, name, args, key)
    lst.append((args, a))
    return a


def neg_lead(p):
    """does the leading term (a canonical choice) carry a minus sign?"""
    if not p.t:
        return False
    return p.t[min(p.t, key=_mono_order)] < 0


def _mono_order(m):
    return m


ODD = {"sin", "tan", "arcsin", "arctan", "sinh", "tanh", "sign"}
EVEN = {"cos", "cosh", "abs"}


def exact_sin(k):
    """sin(k * pi) for the angles with a simple value"""
    k = k % 2
    sg = 1
    if k >= 1:
        k, sg = k - 1, -1
    if k > Fraction(1, 2):
        k = 1 - k
    v = {Fraction(0): ZERO, Fraction(1, 6): ONE / 2, Fraction(1, 4): sqrt(P.of(2)) / 2,
         Fraction(1, 3): sqrt(P.of(3)) / 2, Fraction(1, 2): ONE}.get(k)
    return None if v is None else v * sg


def fn(name, args):
    args = tuple(P.of(a) if isinstance(a, (int, float, Fraction, P)) and not isinstance(a, bool)
                 else a for a in args)
    if len(args) == 1 and isinstance(args[0], P):
        x = args[0]
        if name == "tan":
            return fn("sin", (x,)) / fn("cos", (x,))
        c = x.const()
        if name in ("sin", "cos") and x.t:
            pim = ((PI.id, 1),)
            k = x.t.get(pim)
            if k is not None and (2 * k).denominator == 1:
                rest = P({m: v for m, v in x.t.items() if m != pim})
                n = int(2 * k) % 4
                s = {"sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)],
                     "cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)]}[name][n]
                return fn(s[0], (rest,)) * s[1]
        if name in ("sin", "cos") and len(x.t) == 1:
            k = x.t.get(((PI.id, 1),))
            if k is not None and (12 * k).denominator == 1:
                v = exact_sin(k if name == "sin" else k + Fraction(1, 2))
                if v is not None:
                    return v
        if c == 0:
            if name in ODD:
                return ZERO
            if name == "cos" or name == "cosh":
                return ONE
        if name == "arcsin" and c is not None and abs(c) in (Fraction(1, 2), 1):
            return atom_p(PI) * (Fraction(1, 2) if abs(c) == 1 else Fraction(1, 6)) * (1 if c > 0 else -1)
        if name == "arccos":
            return atom_p(PI) / 2 - fn("arcsin", (x,))
        if name in ("sin", "cos") and len(x.t) == 1:
            (m, k), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                a = _ATOMS[m[0][0]]
                if a.kind == "fn" and a.name == "arcsin":
                    return a.args[0] * k if name == "sin" else sqrt(ONE - a.args[0] * a.args[0])
        if name in ("sin", "cos") and len(x.t) == 1:
            (m, k), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                a = _ATOMS[m[0][0]]
                if a.kind == "fn" and a.name == "arctan2":
                    h = sqrt(a.args[0] * a.args[0] + a.args[1] * a.args[1])
                    return (a.args[0] * k if name == "sin" else a.args[1]) / h
                if a.kind == "fn" and a.name == "arctan":
                    h = sqrt(ONE + a.args[0] * a.args[0])
                    return (a.args[0] * k if name == "sin" else ONE) / h
            if k.denominator == 1 and abs(k) % 2 == 0 and abs(k) <= 8:
                h = x / 2
                if name == "sin":
                    return 2 * fn("sin", (h,)) * fn("cos", (h,))
                sh = fn("sin", (h,))
                return ONE - 2 * sh * sh
        if name in ("sin", "cos") and 1 < len(x.t) <= 4:
            m = max(x.t)
            a = P({m: x.t[m]})
            b = P({q: v for q, v in x.t.items() if q != m})
            if name == "sin":
                return fn("sin", (a,)) * fn("cos", (b,)) + fn("cos", (a,)) * fn("sin", (b,))
            return fn("cos", (a,)) * fn("cos", (b,)) - fn("sin", (a,)) * fn("sin", (b,))
        if name in ODD and neg_lead(x):
            return -fn(name, (-x,))
        if name in EVEN and neg_lead(x):
            x = -x
            args = (x,)
        if name == "abs":
            return fabs(x)
        if name == "sqrt":
            return sqrt(x)
        if c is not None and name in ("floor", "ceil", "int", "trunc", "rint"):
            import math
            return P.of({"floor": math.floor, "ceil": math.ceil, "int": int, "trunc": int,
                         "rint": round}[name](c))
        if c is not None and name == "sign":
            return P.of((c > 0) - (c < 0))
    if name in ("max", "min"):
        flat = []
        for a in args:
            if isinstance(a, P) and len(a.t) == 1:
                (m, k), = a.t.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1:
                    at_ = _ATOMS[m[0][0]]
                    if at_.kind == "fn" and at_.name == name:
                        flat.extend(at_.args)
                        continue
            flat.append(a)
        cs = [a.const() for a in flat]
        num = [c for c in cs if c is not None]
        rest = [a for a, c in zip(flat, cs) if c is None]
        uniq = []
        for a in rest:
            if not any(same(a, b) for b in uniq):
                uniq.append(a)
        if num:
            uniq.append(P.of(max(num) if name == "max" else min(num)))
        if len(uniq) == 1:
            return uniq[0]
        args = tuple(sorted(uniq, key=lambda q: sorted(q.t.items())))
    return atom_p(_fn_atom("fn", name, args))


def fabs(x):
    x = P.of(x)
    c = x.const()
    if c is not None:
        return P.of(abs(c))
    k = content(x)
    if neg_lead(x):
        k = -k
    x = P({m: c / k for m, c in x.t.items()})
    k = abs(k)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        out = P.of(k)
        for a, e in m:
            at_ = _ATOMS[a]
            b = atom_pow(at_, abs(e))
            if e % 2 and at_.kind != "sqrt" and not (at_.kind == "fn" and at_.name in ("abs", "exp")) \
                    and at_ is not PI:
                b = ipow(atom_p(_fn_atom("fn", "abs", (atom_p(at_),))), 1) * atom_pow(at_, abs(e) - 1)
            out = out * (b if e > 0 else b.inv())
        return out
    return atom_p(_fn_atom("fn", "abs", (x,))) * k


def power(b, e):
    c = e.const()
    if c is not None:
        if c.denominator == 1:
            n = int(c)
            return ipow(b, n) if n >= 0 else ipow(b.inv(), -n)
        if c.denominator == 2:
            n = int(c - Fraction(1, 2))
            h = sqrt(b)
            return h * (ipow(b, n) if n >= 0 else ipow(b.inv(), -n))
    return atom_p(_fn_atom("fn", "pow", (b, e)))


# --- booleans --------------------------------------------------------------
class B:
    """predicate: ('lt', P) P<0 | ('eq', P) | ('not', B) | ('and', {B}) | ('or', {B}) | ('op', name, args)"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, B) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "B%r" % (self.k,)


POSITIVE = []      # atoms ids known to be large positive integers (array lengths)


def constval(p):
    """float value of an expression without variables, else None"""
    s = 0.0
    for m, k in p.t.items():
        v = float(k)
        for a, e in m:
            at_ = _ATOMS[a]
            if at_ is PI:
                x = math.pi
            elif at_.kind == "sqrt":
                x = constval(at_.args[0])
                if x is None or x < 0:
                    return None
                x = math.sqrt(x)
            elif at_.kind == "fn" and at_.name in ("sin", "cos", "arcsin", "arctan", "exp") and \
                    isinstance(at_.args[0], P):
                x = constval(at_.args[0])
                if x is None or at_.name == "arcsin" and abs(x) > 1:
                    return None
                x = getattr(math, at_.name.replace("arc", "a"))(x)
            elif at_.kind == "fn" and at_.name == "arctan2":
                x = [constval(q) for q in at_.args]
                if None in x or abs(x[0]) < 1e-9 and x[1] < 1e-9:
                    return None
                x = math.atan2(*x)
            elif at_.kind == "fn" and at_.name == "sign":
                x = constval(at_.args[0])
                if x is None or abs(x) < 1e-9:
                    return None
                x = 1.0 if x > 0 else -1.0
            elif at_.kind == "sum":
                x = constval(at_.args[0])
                if x is None:
                    return None
            else:
                return None
            if x == 0 and e < 0:
                return None
            v *= x ** e
        s += v
    return s


def bound_sign(p):
    """sign of p when decided by the assumption that array lengths are large"""
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    if len(p.t) <= 6:
        v = constval(p)
        if v is not None and abs(v) > 1e-9:
            return 1 if v > 0 else -1
    lin = [(m, k) for m, k in p.t.items() if m]
    k0 = p.t.get((), Fraction(0))
    if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 and \
            lin[0][0][0][0] in POSITIVE:
        k = lin[0][1]
        if k > 0 and k * 16 + k0 > 0:
            return 1
        if k < 0 and k * 16 + k0 < 0:
            return -1
    if lin and k0 >= 0 and all(k > 0 and nonneg_mono(m) for m, k in lin):
        return 1 if k0 > 0 else None
    return None


def nonneg_mono(m):
    for a, e in m:
        at_ = _ATOMS[a]
        if e % 2 and at_.kind != "sqrt" and not (at_.kind == "fn" and at_.name in ("abs", "exp")) and \
                a not in POSITIVE and at_ is not PI and not (at_.kind == "sum" and nonneg(at_.args[0])):
            return False
    return True


def _canon(p, signed):
    """scale by a positive rational (and by sign when allowed)"""
    k = content(p)
    if not signed and neg_lead(p):
        k = -k
    return P({m: c / k for m, c in p.t.items()})


def lt(a, b):
    d = P.of(a) - P.of(b)
    s = bound_sign(d)
    if s is not None:
        return s < 0
    if nonneg(d):
        return False
    return B(("lt", _canon(_strip(d), True)))


def _strip(d):
    """without the factors of every term that cannot be negative (sign unchanged where they are nonzero)"""
    if not d.t:
        return d
    common = None
    for m in d.t:
        mm = dict(m)
        if common is None:
            common = mm
        else:
            for a in list(common):
                e = mm.get(a, 0)
                if (e > 0) != (common[a] > 0) or e == 0:
                    del common[a]
                elif abs(e) < abs(common[a]):
                    common[a] = e
        if not common:
            return d
    drop = {}
    for a, e in common.items():
        if nonneg_mono(((a, e),)):
            drop[a] = e
        else:
            k = e - (e % 2) if e > 0 else e + (-e % 2)
            if k:
                drop[a] = k
    if not drop:
        return d
    out = {}
    for m, c in d.t.items():
        mm = dict(m)
        for a, e in drop.items():
            mm[a] -= e
            if not mm[a]:
                del mm[a]
        out[tuple(sorted(mm.items()))] = c
    return P(out)


def nonneg(d):
    return bool(d.t) and all(c > 0 and nonneg_mono(m) for m, c in d.t.items())


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    d = P.of(a) - P.of(b)
    if not d.t or iszero(d):
        return True
    if d.const() is not None:
        return False
    s = bound_sign(d)
    if s:
        return False
    return B(("eq", _canon(d, False)))


def bnot(x):
    if isinstance(x, bool):
        return not x
    if x.k[0] == "not":
        return x.k[1]
    return B(("not", x))


def _nary(name, xs, unit):
    out = set()
    for x in xs:
        if isinstance(x, bool):
            if x == unit:
                continue
            return not unit
        if x.k[0] == name:
            out |= x.k[1]
        else:
            out.add(x)
    for x in out:
        if bnot(x) in out:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return B((name, frozenset(out)))


def band(*xs):
    return _nary("and", xs, True)


def bor(*xs):
    # de morgan: or is not(and(not ..)) so that both spellings meet
    return bnot(_nary("and", [bnot(x) for x in xs], True))


def phi(c, a, b):
    """value of a if c else b"""
    if isinstance(c, bool):
        return a if c else b
    a, b = P.of(a), P.of(b)
    if a == b or same(a, b):
        return a
    if c.k[0] == "not":
        return phi(c.k[1], b, a)
    # |x|, max and min written as selections
    if c.k[0] == "lt":
        p = c.k[1]
        if same(a, -b):
            for q, sgn in ((a, 1), (b, -1)):
                # lt(x) ? -x : x
                r = _ratio(p, q)
                if r is not None and r != 0:
                    ab = fabs(q)
                    # when p<0: q has sign -sgn(r)
                    if q is a:
                        return ab if r < 0 else -ab
                    return ab if r > 0 else -ab
        d = a - b
        r = _ratio(d, p)
        if r is not None:
            # p = k*(a-b): p<0 -> a
            return fn("min", (a, b)) if r > 0 else fn("max", (a, b))
    return atom_p(_fn_atom("phi", "phi", (c, a, b)))


def _ratio(p, q):
    """rational k with p = k q"""
    if not p.t or not q.t or len(p.t) != len(q.t):
        return None
    k = None
    for m, c in p.t.items():
        if m not in q.t:
            return None
        r = c / q.t[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


# --- zero test ---------------------------------------------------------------
def iszero(p):
    if not p.t:
        return True
    for _ in range(60):
        best = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and _ATOMS[a].kind == "sum":
                    best[a] = min(best.get(a, 0), e)
        if not best:
            break
        a = max(best)
        k = -best[a]
        body = _ATOMS[a].args[0]
        out = ZERO
        pw = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0) + k
            q = P({tuple(sorted(d.items())): c})
            if e:
                if e not in pw:
                    pw[e] = ipow(body, e)
                q = q * pw[e]
            out = out + q
        p = out
        if not p.t:
            return True
    # negative powers of plain atoms cannot vanish
    return not p.t


def same(a, b):
    if not isinstance(a, P) or not isinstance(b, P):
        return a == b
    if a.key == b.key:
        return True
    try:
        return iszero(a - b)
    except TooBig:
        return False


# --- substitution -----------------------------------------------------------
def subst(p, f, memo=None):
    """f(atom) -> P or None (recurse)"""
    memo = {} if memo is None else memo
    out = ZERO
    for m, c in p.t.items():
        q = P({(): c})
        for a, e in m:
            if a not in memo:
                memo[a] = _subst_atom(_ATOMS[a], f, memo)
            r = memo[a]
            q = q * (ipow(r, e) if e > 0 else ipow(r.inv(), -e))
        out = out + q
    return out


def _subst_atom(a, f, memo):
    r = f(a)
    if r is not None:
        return r
    if a.kind in ("var", "at", "pi"):
        return atom_p(a)
    args = tuple(subst_any(x, f, memo) for x in a.args)
    if a.kind == "sum":
        return args[0]
    if a.kind == "sqrt":
        return sqrt(args[0])
    if a.kind == "phi":
        return phi(*args)
    if a.name == "pow":
        return power(*args)
    return fn(a.name, args)


def subst_any(x, f, memo):
    if isinstance(x, P):
        return subst(x, f, memo)
    if isinstance(x, B):
        return subst_b(x, f, memo)
    return x


def subst_b(b, f, memo=None):
    memo = {} if memo is None else memo
    k = b.k
    pred = getattr(f, "pred", None)
    if pred is not None:
        v = pred(b)
        if v is not None:
            return v
    if k[0] == "lt":
        return lt(subst(k[1], f, memo), ZERO)
    if k[0] == "eq":
        return eq(subst(k[1], f, memo), ZERO)
    if k[0] == "not":
        x = subst_any(k[1], f, memo)
        return bnot(x)
    if k[0] == "and":
        return band(*[subst_any(x, f, memo) for x in k[1]])
    return B((k[0], k[1], tuple(subst_any(x, f, memo) for x in k[2])))


def shift(p, axis, n):
    """value of p at index + n along a symbolic axis"""
    if not n:
        return p

    def f(a):
        if a.kind == "at":
            idx, offs = a.args
            if any(o[0] == axis for o in offs):
                return at(a.name, idx, tuple((x, o + n) if x == axis else (x, o) for x, o in offs))
            return atom_p(a)
        if a.kind == "var" and a.name == ("idx", axis):
            return atom_p(a) + n
        return None
    return subst_any(p, f, {})


def atoms_of(p, out=None):
    out = set() if out is None else out
    if isinstance(p, P):
        for m in p.t:
            for a, _ in m:
                if a not in out:
                    out.add(a)
                    for x in _ATOMS[a].args:
                        atoms_of(x, out)
    elif isinstance(p, B):
        for x in p.k[1:]:
            atoms_of(x, out)
    elif isinstance(p, (tuple, frozenset)):
        for x in p:
            atoms_of(x, out)
    return out


# --- selections: Shannon expansion over the sign of the tested quantity --------
class _Sign:
    """substitution that fixes the sign of a canonical polynomial"""

    def __init__(self, x, s):
        self.x, self.s = x, s
        self.var = self.val = None
        if s == 0:
            for m, c in sorted(x.t.items()):
                if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind in ("var", "at"):
                    a = m[0][0]
                    rest = P({k: v for k, v in x.t.items() if k != m})
                    if a not in atoms_of(rest):
                        self.var, self.val = a, rest * P.of(-1 / c)
                        break

    def sign(self, y):
        if not y.t:
            return 0
        r = _ratio(y, self.x)
        return None if r is None else (self.s if r > 0 else -self.s)

    def pred(self, b):
        if b.k[0] in ("lt", "eq"):
            s = self.sign(b.k[1])
            if s is None:
                return None
            return s < 0 if b.k[0] == "lt" else s == 0
        return None

    def __call__(self, a):
        if self.var is not None and a.id == self.var:
            return self.val
        if a.kind == "fn":
            if a.name in ("abs", "sign") and len(a.args) == 1:
                s = self.sign(a.args[0])
                if s is not None:
                    return P.of(s) if a.name == "sign" else a.args[0] * P.of(s)
            if a.name in ("min", "max") and len(a.args) == 2:
                u, v = a.args
                s = self.sign(u - v)
                if s is not None:
                    return (u if s < 0 else v) if a.name == "min" else (u if s > 0 else v)
        return None


class _Truth:
    def __init__(self, b, v):
        self.b, self.v = b, v

    def pred(self, b):
        return self.v if b == self.b else None

    def __call__(self, a):
        return None


def _leaves(b, out):
    if isinstance(b, bool):
        return
    if b.k[0] == "not":
        _leaves(b.k[1], out)
    elif b.k[0] == "and":
        for x in b.k[1]:
            _leaves(x, out)
    elif b not in out:
        out.append(b)


def vanishes(p, depth=7):
    """p is zero, also when that needs its selections to be merged"""
    if iszero(p):
        return True
    if depth <= 0:
        return False
    leaf, x = None, None
    ids = sorted(atoms_of(p))
    for i in ids:
        a = _ATOMS[i]
        if a.kind == "phi":
            ls = []
            _leaves(a.args[0], ls)
            # innermost conditions first: those that contain no selection themselves
            for b in ls:
                if not any(_ATOMS[j].kind == "phi" for j in atoms_of(b)):
                    leaf = b
                    break
        if leaf is not None:
            break
    if leaf is None:
        for i in ids:
            a = _ATOMS[i]
            if a.kind == "fn" and a.name in ("abs", "sign") and len(a.args) == 1:
                x = a.args[0]
            elif a.kind == "fn" and a.name in ("min", "max") and len(a.args) == 2:
                x = a.args[0] - a.args[1]
            if x is not None:
                break
        if x is None:
            return iszero(simplify(p))
    elif leaf.k[0] in ("lt", "eq"):
        x = leaf.k[1]
    try:
        if x is None:
            return all(vanishes(subst(p, _Truth(leaf, v)), depth - 1) for v in (True, False))
        x = _canon(x, False)
        lo, hi = nonneg(x), nonneg(-x)
        iseq = leaf is not None and leaf.k[0] == "eq"
        for s in (-1, 1, 0):
            if s < 0 and lo or s > 0 and hi:
                continue
            f = _Sign(x, s)
            # the boundary of a comparison matters only when it can be substituted
            if s == 0 and f.var is None and not iseq:
                continue
            if not vanishes(subst(p, f), depth - 1):
                return False
        return True
    except (TooBig, ZeroDivisionError):
        return False


# --- printing -----------------------------------------------------------------
def show_atom(a):
    if a.kind == "var":
        return a.name if isinstance(a.name, str) else repr(a.name)
    if a.kind == "pi":
        return "pi"
    if a.kind == "at":
        idx, offs = a.args
        s = ",".join([str(i) for i in idx] + ["%s%+d" % o if o[1] else o[0] for o in offs])
        return "%s[%s]" % (a.name, s)
    if a.kind == "sum":
        return "(%s)" % show(a.args[0])
    return "%s(%s)" % (a.name, ", ".join(show(x) if isinstance(x, P) else repr(x) for x in a.args))


def show(p, n=12):
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items())[:n]:
        f = []
        for a, e in m:
            f.append(show_atom(_ATOMS[a]) + ("^%d" % e if e != 1 else ""))
        cs = str(c)
        if f:
            parts.append(("" if c == 1 else "-" if c == -1 else cs + "*") + "*".join(f))
        else:
            parts.append(cs)
    s = " + ".join(parts)
    if len(p.t) > n:
        s += " + ... (%d terms)" % len(p.t)
    return s


ZERO = P({})
ONE = P({(): Fraction(1)})
PI = Atom("pi", "pi", ())
pi = atom_p(PI)


def nvar(name):
    """array length: a large positive integer"""
    p = var(name)
    (m, _), = p.t.items()
    if m[0][0] not in POSITIVE:
        POSITIVE.append(m[0][0])
    return p


# --- separating valuations ------------------------------------------------------
# Two different normal forms are reported as different functions only together with a valuation of
# their symbols that tells them apart; otherwise the normal form is merely not fine enough to decide.
class _NoValue(Exception):
    pass


def _unit(key):
    h = hashlib.md5(repr(key).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2.0 ** 48


def _val(p, env):
    r = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            v = _aval(_ATOMS[a], env)
            if v == 0 and e < 0:
                raise _NoValue
            x *= v ** e
        r += x
    if r != r or r in (math.inf, -math.inf):
        raise _NoValue
    return r


def _bval(b, env):
    if isinstance(b, bool):
        return b
    k = b.k
    if k[0] == "lt":
        return _val(k[1], env) < 0
    if k[0] == "eq":
        return abs(_val(k[1], env)) < 1e-12
    if k[0] == "not":
        return not _bval(k[1], env)
    if k[0] == "and":
        return all(_bval(x, env) for x in k[1])
    if k[1] == "isnan":
        return False
    if k[1] == "isfinite":
        return True
    return _unit((k[1], tuple(_arg(x, env) for x in k[2]))) < 0.5


def _arg(x, env):
    if isinstance(x, P):
        return round(_val(x, env), 9)
    if isinstance(x, B):
        return _bval(x, env)
    return x if isinstance(x, (str, int, float, bool)) or x is None else repr(x)


_REAL = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos,
         "arctan": math.atan, "arctan2": math.atan2, "exp": math.exp, "log": math.log, "abs": abs,
         "log10": math.log10, "log2": math.log2, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
         "min": min, "max": max, "floor": math.floor, "ceil": math.ceil, "int": int,
         "sign": lambda x: (x > 0) - (x < 0)}


def _aval(a, env):
    memo = env["memo"]
    if a.id in memo:
        return memo[a.id]
    try:
        if a.kind == "pi":
            v = math.pi
        elif a.kind in ("var", "at"):
            u = _unit((env["seed"], a.id))
            if a.id in POSITIVE:
                v = float(20 + int(40 * u))
            else:
                lo, hi = env["range"]
                v = lo + (hi - lo) * u
        elif a.kind == "sum":
            v = _val(a.args[0], env)
        elif a.kind == "sqrt":
            v = math.sqrt(_val(a.args[0], env))
        elif a.kind == "phi":
            v = _val(a.args[1] if _bval(a.args[0], env) else a.args[2], env)
        elif a.name == "pow":
            v = _val(P.of(a.args[0]), env) ** _val(P.of(a.args[1]), env)
        elif a.name in _REAL:
            v = _REAL[a.name](*[_val(P.of(x), env) for x in a.args])
        else:
            v = 2 * _unit((a.name, tuple(_arg(x, env) for x in a.args))) - 1
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        raise _NoValue
    if isinstance(v, complex):
        raise _NoValue
    memo[a.id] = v
    return v


RANGES = ((-0.55, 0.55), (0.05, 0.55), (-1.2, 1.2), (0.2, 3.0), (-3.0, 3.0), (-40.0, 40.0), (0.0, 90.0))


def _scale(p, env):
    return max(abs(_val(P({m: c}), env)) for m, c in p.t.items())


def separate(p, rounds=1500, _deep=True):
    """a valuation of the symbols for which p is clearly nonzero, as text, or None"""
    limit = time.process_time() + (4.0 if _deep else 1.0)
    for seed in range(rounds):
        if time.process_time() > limit:
            break
        for rg in RANGES:
            env = {"seed": seed, "range": rg, "memo": {}}
            try:
                v = _val(p, env)
                if abs(v) > 1e-7 * max(_scale(p, env), 1e-30):
                    names = sorted((show_atom(_ATOMS[i]), x) for i, x in env["memo"].items()
                                   if _ATOMS[i].kind in ("var", "at"))
                    return ", ".join("%s=%.3g" % n for n in names[:6]) or "any value"
            except _NoValue:
                continue
    if not _deep:
        return None
    for i in sorted(atoms_of(p)):
        a = _ATOMS[i]
        if a.kind == "phi":
            ls = []
            _leaves(a.args[0], ls)
            for b in ls:
                try:
                    if b.k[0] == "eq":
                        q = subst(p, _Sign(_canon(b.k[1], False), 0))
                    elif b.k[0] == "op":
                        q = subst(p, _Truth(b, True))
                    else:
                        continue
                    w = separate(q, 300, False) if q.t else None
                except (TooBig, ZeroDivisionError):
                    continue
                if w:
                    return w
    return None
