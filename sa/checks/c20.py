"""Value numbering of viscid/cython/integrate.pyx: one step of every integrator, interpreted on a
symbolic position, step size and field, must equal the step of its Butcher tableau."""
from __future__ import annotations
from fractions import Fraction as F
from .. import alg
from ..alg import P, B, var, fn, phi, lt, eq
from ..interp import A, Unsupp, Raised, Fn
from ..vn import VN, differ, zero
from ..proj import AnalysisBroken

M = "viscid.cython.integrate."
RK4 = dict(c=[[], [F(1, 2)], [0, F(1, 2)], [0, 0, 1]],
           u=[F(1, 6), F(1, 3), F(1, 3), F(1, 6)], w=[F(1, 6), F(1, 3), F(1, 3), F(1, 6)])
MID = [[], [F(1, 2)]]
FEHL = [[], [F(1, 4)], [F(3, 32), F(9, 32)], [F(1932, 2197), F(-7200, 2197), F(7296, 2197)],
        [F(439, 216), -8, F(3680, 513), F(-845, 4104)],
        [F(-8, 27), 2, F(-3544, 2565), F(1859, 4104), F(-11, 40)]]
# stages c, propagated solution u, error companion v (None: not adaptive), weights of the travel time w
TAB = {
    "_c_euler1": dict(c=[[]], u=[1], w=[1]),
    "_c_rk2": dict(c=MID, u=[0, 1], w=[0, 1]),
    "_c_rk4": RK4,
    "_c_euler1a": dict(c=[[], [1]], u=[1, 0], v=[2, -1], w=[1, 0]),
    "_c_rk12": dict(c=MID, u=[1, 0], v=[0, 1], w=[0, 1]),
    "_c_rk45": dict(c=FEHL, u=[F(25, 216), 0, F(1408, 2565), F(2197, 4104), F(-1, 5), 0],
                    v=[F(16, 135), 0, F(6656, 12825), F(28561, 56430), F(-9, 50), F(2, 55)],
                    w=[F(16, 135), 0, F(6656, 12825), F(28561, 56430), F(-9, 50), F(2, 55)]),
}
X = [var("x%d" % i) for i in range(3)]
S = [var("s%d" % i) for i in range(3)]


def stages(tab, h):
    """positions, scaled field values, speeds"""
    pos, ks, mag = [], [], []
    for i, row in enumerate(tab["c"]):
        x = list(X)
        for c, k in zip(row, ks):
            x = [a + P.of(c) * b for a, b in zip(x, k)]
        f = [S[m] * var("f%d_%d" % (i, m)) for m in range(3)]
        g = var("g%d" % i)
        SPEED[g.key] = f[0] * f[0] + f[1] * f[1] + f[2] * f[2]
        pos.append(x)
        mag.append(g)
        ks.append([h * a / g for a in f])
    return pos, ks, mag


SPEED = {}


def expand(p):
    """speeds written out as the root of the sum of squares"""
    def f(a):
        if a.kind == "var" and a.name[:1] == "g" and alg.atom_p(a).key in SPEED:
            return alg.sqrt(SPEED[alg.atom_p(a).key])
        return None
    return alg.subst(P.of(p), f)


def agree(a, b):
    a, b = P.of(a), P.of(b)
    return a.key == b.key or zero(expand(a) - expand(b))


def comb(w, ks):
    return [sum((P.of(c) * k[m] for c, k in zip(w, ks)), P.of(0)) for m in range(3)]


class Step:
    """one interpretation of an integrator"""

    def __init__(self, vn, name, bad=None, nan=False, repeats=0, dt=True):
        self.tab = TAB[name]
        self.h = [var("h")] + [var("h%d" % (i + 1)) for i in range(repeats)]
        self.ref = [stages(self.tab, h) for h in self.h]
        self.round = 0
        self.errs = []
        self.bad, self.nan = bad, nan
        self.bounds = []
        self.repeats = repeats
        it = vn.interp({"viscid.cython.cycalc._c_interp_trilin": self.field,
                        "cython.operator.dereference": lambda it, a, k: a[0][0],
                        "libc.math.isnan": self.isnan, "libc.math.sqrt": self.root,
                        M + "_ts_ctrl": self.ctrl}, None)
        it.decider = self.decide
        self.x, self.ds, self.dt = list(X), [self.h[0]], ([var("T")] if dt else None)
        self.idx = [0, 0, 0]
        self.ret = it.call_qual(M + name, ["FIELD", self.x, self.ds, self.dt, var("maxerr"), var("smallest"),
                                           var("largest"), list(S), self.idx])

    def field(self, it, a, k):
        m = alg.P.of(a[1]).const()
        pt = [P.of(e) for e in (a[2].a if isinstance(a[2], A) else a[2])]
        pos = self.ref[self.round][0]
        for i, p in enumerate(pos):
            if all(u.key == v.key for u, v in zip(pt, p)):
                return var("f%d_%d" % (i, int(m)))
        for i, p in enumerate(pos):
            if all(alg.same(expand(u), expand(v)) for u, v in zip(pt, p)):
                return var("f%d_%d" % (i, int(m)))
        return fn("field", (P.of(int(m)),) + tuple(pt))

    def root(self, it, a, k):
        p = P.of(a[0])
        for g in self.ref[self.round][2]:
            if p.key == SPEED[g.key].key:
                return g
        return alg.sqrt(p)

    def speed(self, p):
        """index of the stage whose speed (or its square) p is"""
        p = P.of(p)
        for i, g in enumerate(self.ref[self.round][2]):
            for q in (g, g * g, SPEED[g.key], alg.sqrt(SPEED[g.key])):
                if alg.same(p, q):
                    return i, 1
                if alg.same(p, -q):
                    return i, -1
        return None, 0

    def isnan(self, it, a, k):
        i, s = self.speed(a[0])
        return i is not None and self.nan and i == self.bad

    def decide(self, b):
        if b.k[0] in ("eq", "lt"):
            i, s = self.speed(b.k[1])
            if i is not None:
                hit = i == self.bad and not self.nan
                if b.k[0] == "eq":
                    return hit
                if self.nan and i == self.bad:
                    raise Unsupp("ordering test of a speed that is not a number")
                return False if s > 0 or hit else True
            if b.k[0] == "eq" and not b.k[1].t:
                return True
        if b.k == ("eq", var("h")):
            return False
        return None

    def ctrl(self, it, a, k):
        self.errs.append(P.of(a[1]))
        self.bounds.append([P.of(x) for x in a[2:5]])
        if self.round < self.repeats:
            self.round += 1
            a[0][0] = self.h[self.round]
            return 1
        a[0][0] = var("hnext")
        return 0


def check_step(vn, name, repeats):
    st = Step(vn, name, repeats=repeats)
    pos, ks, mag = st.ref[-1]
    h = st.h[-1]
    if st.ret not in (0, False) and not (isinstance(st.ret, P) and not st.ret.t):
        return "returns %s for a regular point" % (st.ret,)
    want = [a + b for a, b in zip(X, comb(st.tab["u"], ks))]
    for m in range(3):
        if not agree(st.x[m], want[m]):
            return "component %d of the new position is %s instead of %s" % (
                m, alg.show(P.of(st.x[m]), 4)[:250], alg.show(want[m], 4)[:250])
    wt = sum((P.of(c) * g for c, g in zip(st.tab["w"], mag)), P.of(0))
    if not agree(P.of(st.dt[0]), var("T") + h / wt):
        return "the travel time grows by %s" % alg.show(P.of(st.dt[0]) - var("T"), 3)[:250]
    if "v" in st.tab:
        if len(st.errs) != repeats + 1:
            return "asks for the step size %d times in %d attempts" % (len(st.errs), repeats + 1)
        for r, e in enumerate(st.errs):
            d = comb([P.of(a) - P.of(b) for a, b in zip(st.tab["v"], st.tab["u"])], st.ref[r][1])
            want = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) / (st.h[r] * st.h[r])
            if not agree(e * e, want):
                return "the error estimate is %s" % alg.show(e, 3)[:250]
            if [alg.show(x) for x in st.bounds[r]] != ["maxerr", "smallest", "largest"]:
                return "tolerance and step limits do not reach the step size control"
        if not alg.same(P.of(st.ds[0]), var("hnext")):
            return "the step size chosen by the control is not kept"
    elif not alg.same(P.of(st.ds[0]), var("h")):
        return "a fixed step integrator changes the step size"
    return None


def check_nodt(vn, name):
    st = Step(vn, name, dt=False)
    want = [a + b for a, b in zip(X, comb(st.tab["u"], st.ref[-1][1]))]
    for m in range(3):
        if not agree(st.x[m], want[m]):
            return "component %d of the new position is %s" % (m, alg.show(P.of(st.x[m]), 4)[:250])
    return None


def check_stop(vn, name, i, nan):
    st = Step(vn, name, bad=i, nan=nan)
    r = P.of(st.ret).const() if isinstance(st.ret, (int, P, bool)) else None
    if r is None or r == 0:
        return "does not report a %s field at stage %d" % ("not-a-number" if nan else "vanishing", i + 1)
    return differ(list(st.x), X) or differ(st.dt[0], var("T"))


def control(vn):
    h, e = var("h"), var("err")
    me, lo, hi = var("maxerr"), var("smallest"), var("largest")
    it = vn.interp({"cython.operator.dereference": lambda it, a, k: a[0][0]}, None)
    got = it.probe(M[:-1], "def probe(h, e, me, lo, hi):\n    ds = [h]\n"
                   "    r = _ts_ctrl(ds, e, me, lo, hi)\n    return r, ds[0]\n", [h, e, me, lo, hi])
    if not isinstance(got, tuple):
        raise Unsupp("control flow of _ts_ctrl")
    ret, new = got
    r = alg.fabs(e) / me
    ah = alg.fabs(h)
    sg = h / ah
    dn = P.of(F(9, 10)) * h * alg.power(r, P.of(F(-1, 4)))
    up = P.of(F(9, 10)) * h * alg.power(r, P.of(F(-1, 5)))
    shrink = phi(alg.le(ah, lo), sg * lo, phi(alg.le(alg.fabs(dn), lo), sg * lo, dn))
    grow = phi(alg.le(hi, ah), sg * hi, phi(alg.le(hi, alg.fabs(up)), sg * hi, up))
    big = alg.le(P.of(1), r)
    want = phi(eq(r, 0), h, phi(big, shrink, grow))
    rep = phi(eq(r, 0), P.of(0), phi(big, phi(alg.le(ah, lo), P.of(0), P.of(1)), P.of(0)))
    if isinstance(ret, B):
        ret = phi(ret, P.of(1), P.of(0))
    return differ(P.of(ret), rep, "repeat flag: ") or differ(new, want, "new step: ")


def run(ctx):
    vn = VN(ctx)
    for name in TAB:
        if ctx.proj.func(M + name) is None:
            raise AnalysisBroken("integrator %s not found" % name)
        q = M + name
        vn.check("step", name, q, lambda: check_step(vn, name, 0))
        vn.check("step", name + " without time", q, lambda: check_nodt(vn, name))
        if "v" in TAB[name]:
            vn.check("step", name + " repeated", q, lambda: check_step(vn, name, 1))
            vn.check("step", name + " repeated twice", q, lambda: check_step(vn, name, 2))
        for i in range(len(TAB[name]["c"])):
            for nan in (False, True):
                vn.check("stop", "%s stage %d %s" % (name, i + 1, "nan" if nan else "zero"), q,
                         lambda: check_stop(vn, name, i, nan))
    vn.check("control", "_ts_ctrl", M + "_ts_ctrl", lambda: control(vn))
    vn.finish()
    ctx.need(sum(1 for o in ctx.obligations if o[2] != "undecided"), 5, "decided obligations")
