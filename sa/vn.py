"""Shared by the value-numbering checks.

The functions of the package are interpreted over a domain of canonical symbolic values
(sa/alg.py): every input stands for all its values at once, branches on unknown
conditions are joined, calls are inlined.  Two computations agree when their value
numbers (canonical forms) are equal."""
from __future__ import annotations
import numpy as _np
from . import alg
from .alg import P, B, var
from .interp import A, Interp, Unsupp, Raised, symarr, arr
from .proj import AnalysisBroken


def differ(got, want, path="", simp=None):
    """None when equal, else text; ``want`` decides the structure"""
    if isinstance(want, (tuple, list)) and isinstance(got, A):
        want = arr(want)
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            return "%sexpected %d values, found %s" % (path, len(want), brief(got))
        for i, (g, w) in enumerate(zip(got, want)):
            d = differ(g, w, "%s[%d] " % (path, i), simp)
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return "%sexpected keys %s, found %s" % (path, sorted(want), brief(got))
        for k in want:
            d = differ(got[k], want[k], "%s[%r] " % (path, k), simp)
            if d:
                return d
        return None
    if isinstance(want, A):
        if isinstance(got, (list, tuple)):
            got = arr(got)
        if not isinstance(got, A):
            if want.a.size == 1 and want.ndim == 0:
                return differ(got, want.a[()], path, simp)
            return "%sexpected an array %s, found %s" % (path, want.dims, brief(got))
        if got.dims != want.dims:
            return "%sshape %s instead of %s" % (path, got.dims, want.dims)
        for i in _np.ndindex(want.a.shape):
            d = differ(got.a[i], want.a[i], "%s[%s] " % (path, ",".join(map(str, i))), simp)
            if d:
                return d
        return None
    if isinstance(got, A) and got.ndim == 0:
        got = got.a[()]
    if want is None or isinstance(want, (str, bytes, slice)):
        return None if type(got) is type(want) and got == want else \
            "%sis %s instead of %r" % (path, brief(got), want)
    if isinstance(want, B) or isinstance(want, bool):
        if isinstance(got, (B, bool)) and got == want:
            return None
        return "%sis %s instead of %s" % (path, brief(got), brief(want))
    if isinstance(got, (bool, B)) or got is None or isinstance(got, (str, list, tuple, dict, A)):
        return "%sis %s instead of %s" % (path, brief(got), brief(want))
    try:
        g, w = P.of(got), P.of(want)
    except Exception:
        raise Unsupp("cannot compare %s" % brief(got))
    if simp is not None:
        g, w = simp(g), simp(w)
    if alg.same(g, w) or zero(g - w):
        return None
    return "%sis %s instead of %s (they differ at %s)" % (
        path, alg.show(g, 5)[:300], alg.show(w, 5)[:300], alg.separate(g - w))


def zero(d):
    """the difference vanishes; a violation needs a valuation that separates the two sides"""
    if alg.vanishes(d):
        return True
    if alg.separate(d) is None:
        raise Unsupp("normal forms differ but no valuation separates them")
    return False


def brief(x):
    if isinstance(x, P):
        return alg.show(x, 4)[:200]
    return str(x)[:200]


def where(proj, qual):
    f = proj.func(qual)
    if f is None:
        return qual
    return "%s:%d" % (f.mod.path, f.node.lineno)


class VN:
    def __init__(self, ctx, maxsteps=400000):
        self.ctx = ctx
        self.maxsteps = maxsteps
        self.reached = set()
        self.last = None
        self.todo = []

    def interp(self, hooks=None, overrides=None):
        it = Interp(self.ctx.proj, hooks, overrides)
        it.maxsteps = self.maxsteps
        self.last = it
        return it

    def call(self, qual, *args, **kwargs):
        hooks = kwargs.pop("_hooks", None)
        ov = kwargs.pop("_over", None)
        it = self.interp(hooks, ov)
        r = it.call_qual(qual, list(args), kwargs)
        self.reached |= it.calls
        return r

    def verdict(self, thunk):
        """thunk() -> None (holds) or text; engine limits leave the obligation undecided"""
        try:
            msg = thunk()
        except Unsupp as e:
            return "undecided", str(e)[:160]
        except Raised as e:
            if e.explicit:
                msg = "raises %s %s for valid input" % (e.names[0], e.text)
            else:
                return "undecided", "raises %s %s" % (e.names[0], e.text[:100])
        except (alg.TooBig, RecursionError, MemoryError) as e:
            return "undecided", "expression too large %s" % type(e).__name__
        except AnalysisBroken:
            raise
        except Exception as e:      # engine error: no verdict
            return "undecided", "%s %s" % (type(e).__name__, str(e)[:120])
        return ("bad", msg) if msg else ("ok", None)

    def record(self, rule, name, qual, v):
        ctx = self.ctx
        if v[0] == "undecided":
            ctx.undecided(rule, name, v[1])
            return None
        if v[0] == "bad":
            ctx.bad(rule, name, v[1], where(ctx.proj, qual))
            return False
        ctx.ok(rule, name, qual)
        return True

    def check(self, rule, name, qual, thunk):
        return self.record(rule, name, qual, self.verdict(thunk))

    def defer(self, rule, name, qual, thunk):
        """like check, but evaluated with the other deferred obligations by several processes"""
        self.todo.append((rule, name, qual, thunk))

    def run_deferred(self, jobs=None):
        import multiprocessing as mp
        import os
        todo, self.todo = self.todo, []
        jobs = min(jobs or os.cpu_count() or 1, len(todo))
        if jobs <= 1:
            for t in todo:
                self.check(*t)
            return
        mpc = mp.get_context("fork")
        nxt = mpc.Value("i", 0)
        parts = []
        for w in range(jobs):
            r, s = mpc.Pipe(False)

            def work(s=s):
                out = []
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= len(todo):
                        break
                    out.append((i, self.verdict(todo[i][3])))
                s.send((out, self.reached))
                s.close()
            p = mpc.Process(target=work)
            p.start()
            s.close()
            parts.append((p, r))
        res = {}
        for p, r in parts:
            try:
                out, reached = r.recv()
                res.update(out)
                self.reached |= reached
            except EOFError:
                pass
            p.join()
        for i, (rule, name, qual, thunk) in enumerate(todo):
            self.record(rule, name, qual, res.get(i, ("undecided", "analysis process ended")))

    def finish(self, minimum=1):
        self.ctx.stats["functions interpreted"] = len(self.reached)
        self.ctx.assumptions = list(self.ctx.assumptions) + [
            "exact real arithmetic: rounding is not modelled",
            "numpy, numexpr and math behave as modelled in sa/npmodel.py",
            "an argument combination that raises is outside the claim"]


class Order:
    """decides comparisons that depend only on the order of the symbols: a predicate is decided when
    every representative assignment of the order type agrees on it"""

    def __init__(self, *envs):
        # each env: {atom P key: float}
        tiny = alg.var("rounding").key      # what sa/disk.py adds to a number written with few digits
        self.envs = [{tiny: 1e-9, **e} for e in envs]

    def value(self, p):
        out = []
        for e in self.envs:
            memo = {}
            for i in alg.atoms_of(p):
                a = alg._ATOMS[i]
                k = alg.atom_p(a).key
                if k in e:
                    memo[i] = float(e[k])
                elif a.kind in ("var", "at") or a.kind == "fn" and a.name not in alg._REAL and a.name != "pow":
                    return None
            try:
                out.append(alg._val(p, {"seed": 0, "range": (0, 1), "memo": memo}))
            except alg._NoValue:
                return None
        return out

    def __call__(self, b):
        if isinstance(b, bool):
            return b
        k = b.k
        if k[0] == "not":
            v = self(k[1])
            return None if v is None else not v
        if k[0] == "and":
            vs = [self(x) for x in k[1]]
            return False if False in vs else None if None in vs else True
        if k[0] in ("lt", "eq"):
            v = self.value(k[1])
            if v is None:
                return None
            r = {x < -1e-12 for x in v} if k[0] == "lt" else {abs(x) < 1e-12 for x in v}
            return r.pop() if len(r) == 1 else None
        return None

    def floor(self, p):
        import math
        v = self.value(P.of(p))
        if v is None:
            return None
        r = {math.floor(x + 1e-12) for x in v}
        return r.pop() if len(r) == 1 else None


def unit(name, n=3):
    """a symbolic unit vector: its last component is eliminated"""
    x = [var("%s%d" % (name, i)) for i in range(n - 1)]
    r = P.of(1)
    for q in x:
        r = r - q * q
    return x + [alg.sqrt(r)]


def matmul(*ms):
    out = ms[0]
    for m in ms[1:]:
        out = [[sum((out[i][k] * m[k][j] for k in range(len(m))), P.of(0))
                for j in range(len(m[0]))] for i in range(len(out))]
    return out


def matvec(m, v):
    return [sum((m[i][k] * v[k] for k in range(len(v))), P.of(0)) for i in range(len(m))]


def transpose(m):
    return [list(r) for r in zip(*m)]


def rows(a):
    """nested lists of an array value"""
    if isinstance(a, A):
        if a.ndim == 0:
            return a.a[()]
        if a.ndim == 1:
            return [P.of(x) for x in a.a]
        from .interp import index
        return [rows(index(a, (i,))) for i in range(a.a.shape[0])]
    if isinstance(a, (list, tuple)):
        return [rows(x) for x in a]
    return P.of(a)


def decide(p, f):
    """replace selections: f(B) -> True / False / None"""
    def g(a):
        if a.kind == "phi":
            c = a.args[0]
            v = f(c)
            if v is True:
                return decide(a.args[1], f)
            if v is False:
                return decide(a.args[2], f)
        return None
    return alg.subst(P.of(p), g)


def replace(p, mapping):
    """substitute atoms by name/function: mapping(atom) -> P or None"""
    return alg.subst_any(p, mapping, {})
