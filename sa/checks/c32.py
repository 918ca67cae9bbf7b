"""Value numbering of viscid/cython/streamline.pyx: which points a streamline has, where it ends and
what its topology says, for every way a line can end and every split among processes."""
from __future__ import annotations
import itertools
import math
from fractions import Fraction as F
from .. import alg
from ..alg import P, var, same
from ..interp import A, Obj, Ext, Native, Raised, EXC, asint, arr, symarr
from ..npmodel import toarr
from ..disk import refused
from ..vn import VN, Order, differ, zero

Y = "viscid.cython.streamline."
I = "viscid.cython.integrate."
METH = {"euler1": "_c_euler1", "rk2": "_c_rk2", "rk4": "_c_rk4", "euler1a": "_c_euler1a", "rk12": "_c_rk12", "rk45": "_c_rk45"}
CODE = {"euler1": 1, "rk2": 2, "rk4": 3, "euler1a": 4, "rk12": 5, "rk45": 6}
# what the documentation of the end flags says
IB, NORTH, SOUTH, OB, XL, XH, YL, YH, ZL, ZH, OR, OTHER, MAXIT, MAXLEN, MAXT, ZERO = [1 << i for i in range(11)] + [1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16]
UNIT = [(1, 0, 0), (F(3, 5), F(4, 5), 0), (0, F(3, 5), F(4, 5)), (0, 0, 1), (F(-4, 5), F(3, 5), 0), (F(2, 3), F(1, 3), F(2, 3))]
H = var("h")


BOX = ([-4, -3, -2], [4, 3, 2])
HV = 0.5


class World:
    """where the integrator goes: unit directions that turn, speeds, adapted steps, stagnation. A line is
    known by the places it has been, so a step from anywhere else is noticed"""

    def __init__(self, seeds, places, h=H, turn=(0,), start=0, sign=1, speed=(1,), adapt=(1,), stop=None, vary=False, back=None, env=()):
        self.back = back
        self.seeds = seeds
        self.order = Order({**{c.key: float(v) for s, pl in zip(seeds, places) for c, v in zip(s, pl)}, H.key: HV, **dict(env)})
        self.turn, self.start, self.sign, self.speed, self.adapt, self.stop, self.vary = turn, start, sign, speed, adapt, stop, vary
        self.at = {}
        self.restart()
        self.calls = []

    def restart(self):
        self.at = {(self.place(s), d): (i, 0) for i, s in enumerate(self.seeds) for d in (-1, 1)}

    def num(self, p):
        if isinstance(p, (int, float, F)):
            return float(p)
        return self.order.value(P.of(p))[0]

    def place(self, s):
        return tuple(round(self.num(x), 9) for x in s)

    def step(self, k, stream, d):
        i = (self.start if d > 0 or self.back is None else self.back) + (stream if self.vary else 0) + self.turn[k % len(self.turn)]
        u = UNIT[i % len(UNIT)]
        return [self.sign * c for c in u], self.speed[k % len(self.speed)], self.adapt[k % len(self.adapt)]

    def integrator(self, name):
        def f(it, a, k):
            patch, s, ds, dt = a[:4]
            h = P.of(it.getitem(ds, 0))
            d = -1 if self.num(h) < 0 else 1
            who = self.at.get((self.place(s), d))
            if who is None:
                raise refused(["RuntimeError"], "a step from a place the line has not reached")
            stream, n = who
            if n > 40:
                raise refused(["RuntimeError"], "a line that does not end")
            self.calls.append((name, a[4:7]))
            if self.stop is not None and n == self.stop:
                return 1
            u, v, ad = self.step(n, stream, d)
            used = h * ad if ad < 1 else h
            for m in range(3):
                s[m] = P.of(s[m]) + used * u[m] * P.of(a[7][m])
            self.at[self.place(s), d] = (stream, n + 1)
            it.setitem(ds, 0, h * ad)
            if dt is not None:
                it.setitem(dt, 0, P.of(it.getitem(dt, 0)) + used / v)
            return 0
        return f

    # the definition
    def line(self, stream, o):
        x0 = self.seeds[stream]
        pts, flags = {-1: [], 1: []}, 0
        for d in (-1, 1):
            if not o["stream_dir"] & (1 if d > 0 else 2):
                continue
            s, h, length, t, n = list(x0), d * P.of(o["ds0"]), P.of(0), P.of(0), 0
            end = None
            while end is None:
                if n == o["maxit"]:
                    end = OTHER | MAXIT
                    break
                if self.stop is not None and n == self.stop:
                    end = OTHER | ZERO
                    break
                u, v, ad = self.step(n, stream, d)
                used = h * ad if ad < 1 else h
                h = h * ad
                size = used * d
                trim = P.of(1)
                if o["max_length"] and self.num(length + size) > self.num(o["max_length"]) + 1e-12:
                    trim = (P.of(o["max_length"]) - length) / size
                if o["max_t"] and self.num(t + size / v) > self.num(o["max_t"]) + 1e-12:
                    w = (P.of(o["max_t"]) - t) / (size / v)
                    trim = w if self.num(w) < self.num(trim) else trim
                s = [x + trim * used * c * g for x, c, g in zip(s, u, o["vscale"])]
                length, t, n = length + size, t + size / v, n + 1
                pts[d].append(s)
                q = [self.num(x) for x in s]
                r = math.sqrt(sum(x * x for x in q))
                if r < self.num(o["ibound"]):
                    end = IB | (NORTH if q[2] >= 0 else SOUTH)
                elif o["obound_r"] and r > self.num(o["obound_r"]):
                    end = OB | OR
                else:
                    for m in range(3):
                        if q[m] < self.num(o["obound0"][m]):
                            end = end or OB | (XL, YL, ZL)[m]
                    for m in range(3):
                        if q[m] > self.num(o["obound1"][m]):
                            end = end or OB | (XH, YH, ZH)[m]
                    if end is None and o["max_length"] and self.num(length) >= self.num(o["max_length"]) - 1e-12:
                        end = OTHER | MAXLEN
                    elif end is None and o["max_t"] and self.num(t) >= self.num(o["max_t"]) - 1e-12:
                        end = OTHER | MAXT
            flags |= end
        return list(reversed(pts[-1])) + [list(x0)] + pts[1], flags


def topology(flags, style):
    if style != "msphere" or flags & OTHER:
        return flags
    if flags & OB:
        return 2 if flags & NORTH else 4 if flags & SOUTH else 8
    return 1 if flags & IB else 8


def objects(it, a, k):
    """numpy.empty of arrays"""
    n = asint(a[0][0] if isinstance(a[0], (tuple, list)) else a[0])
    lst = [None] * n

    def put(it, o, a, k):
        i, v = a
        if isinstance(i, slice):
            j = range(*slice(*[None if q is None else asint(q) for q in (i.start, i.stop, i.step)]).indices(n))
            v = it.iterate(v)
            if len(v) != len(j):
                raise Raised(EXC["ValueError"], "%d lines into %d places" % (len(v), len(j)))
            for q, x in zip(j, v):
                lst[q] = x
        else:
            lst[asint(i)] = v

    def get(it, o, a, k):
        return lst[a[0] if isinstance(a[0], slice) else asint(a[0])]
    return Obj(model={"__setitem__": put, "__getitem__": get, "__len__": lambda it, o, a, k: n, "__iter__": lambda it, o, a, k: lst, "list": lst})


def seeds_of(n, center="cell"):
    return [[var("s%d_%d" % (i, m)) for m in range(3)] for i in range(n)]


def run(ctx):
    ctx.rule("line", "a line is the steps backward, reversed, its seed and the steps forward, until the first that is out of bounds, too long, too late or at rest")
    ctx.rule("topology", "the topology of a line is what its two ends are")
    ctx.rule("split", "lines and topology come in the order of the seeds for every number of processes and chunks")
    vn = VN(ctx, 2000000)

    def trace(world, n, kw, two=(), nr_patches=1, wrap=False, center="cell", asked=None):
        hooks = {I + q: world.integrator(m) for m, q in METH.items()}
        patch = Obj(attrs={"n": [1 if m in two else 9 for m in range(3)]})
        active = []
        cy = Obj(attrs={"active_patch": patch, "active_patch_index": 0, "nr_patches": nr_patches, "global_xl": list(BOX[0]), "global_xh": list(BOX[1]),
                        "min_dx": H * 2, "crd_dtype": "f8"})

        def activate(it, a, k):
            active.append(list(a[1]))
            return None
        hooks["viscid.cython.cyamr.make_cyamrfield"] = lambda it, a, k: cy
        hooks["viscid.cython.cyamr.activate_patch"] = activate
        hooks["viscid.seed.to_seeds"] = lambda it, a, k: a[0]

        def pmap(it, a, k):
            fun = a[1] if len(a) > 1 else k["func"]
            args = a[2] if len(a) > 2 else k["args_iter"]
            kws = a[3] if len(a) > 3 else k.get("args_kw") or {}
            return [it.call(fun, it.iterate(x), dict(kws)) for x in it.iterate(args)]
        hooks["viscid.parallel.map"] = pmap
        asked = [] if asked is None else asked

        def points(it, o, a, k):
            asked.append(k.get("center", a[0] if a else None))
            return [list(x) for x in world.seeds]
        wrapped = []

        def wrapf(it, o, a, k):
            wrapped.append((a[0] if a else k.get("arr", k.get("data")), k.get("name")))
            return "wrapped"
        seed = Obj(attrs={} if center is None else {"center": center}, model={})
        vf = Obj(attrs={"nr_sdims": 3, "nr_comps": 3, "center": "cell"})
        seed.attrs["iter_points"] = Native(lambda it, a, k: points(it, None, a, k), "iter_points")
        seed.attrs["get_nr_points"] = Native(lambda it, a, k: asked.append(k.get("center", a[0] if a else None)) or n, "get_nr_points")
        seed.attrs["wrap_field"] = Native(lambda it, a, k: wrapf(it, None, a, k), "wrap_field")
        it = vn.interp(hooks, None)
        it.decider = world.order

        def size(it, a, k):
            v = world.order.value(P.of(a[0]))
            return alg.fn("abs", (P.of(a[0]),)) if v is None else P.of(a[0]) if v[0] >= 0 else -P.of(a[0])
        for q in ("libc.math.fabs", "libc.stdlib.abs", "builtins.abs", "cython.operator.fabs", "numpy.abs", "numpy.fabs"):
            it.ext[q] = size
        emp = it.ext["numpy.empty"]
        it.ext["numpy.empty"] = lambda it, a, k: objects(it, a, k) if isinstance(k.get("dtype"), Ext) and k["dtype"].name == "numpy.ndarray" else emp(it, a, k)
        world.restart()
        lines, topo = it.call_qual(Y + "calc_streamlines", [vf, seed], dict(kw, wrap=wrap))
        if wrap and topo is not None:
            if topo != "wrapped" or len(wrapped) != 1 or wrapped[0][1] != "Topology":
                raise refused(["RuntimeError"], "the topology is not wrapped by the seeds")
            topo = wrapped[0][0]
        vn.reached |= it.calls
        return it, lines, topo, active

    def options(kw, two):
        o = dict(ds0=H, stream_dir=3, maxit=90000, max_length=None, max_t=None, ibound=0, obound_r=0, output=3, topo_style="msphere",
                 obound0=BOX[0], obound1=BOX[1])
        o.update({k: v for k, v in kw.items() if k in o})
        if "ds0_frac" in kw:
            o["ds0"] = kw["ds0_frac"] * H * 2
        o["vscale"] = [0 if m in two else 1 for m in range(3)]
        if two:
            o["obound0"] = [-1e30 if m in two and "obound0" not in kw else v for m, v in enumerate(o["obound0"])]
            o["obound1"] = [1e30 if m in two and "obound1" not in kw else v for m, v in enumerate(o["obound1"])]
        return o

    def compare(world, n, kw, two=(), want="both", wrap=False, nr_patches=1):
        it, lines, topo, active = trace(world, n, kw, two, nr_patches, wrap)
        o = options(kw, two)
        if (lines is None) != (not o["output"] & 1):
            return "lines are %s" % ("missing" if lines is None else "given")
        if (topo is None) != (not o["output"] & 2):
            return "the topology is %s" % ("missing" if topo is None else "given")
        if lines is not None:
            got = lines.model["list"] if isinstance(lines, Obj) else list(lines)
            if len(got) != n:
                return "%d lines for %d seeds" % (len(got), n)
        for i in range(n):
            pts, flags = world.line(i, o)
            if lines is not None and want in ("line", "both"):
                if not isinstance(got[i], A):
                    return "line %d is %r" % (i, got[i])
                if got[i].shape != (3, len(pts)):
                    return "line %d has shape %r instead of %r" % (i, got[i].shape, (3, len(pts)))
                for j, pt in enumerate(pts):
                    for m in range(3):
                        if not same(P.of(got[i].a[m, j]), P.of(pt[m])):
                            return "point %d of line %d: component %d is %s instead of %s" % (j, i, m, alg.show(P.of(got[i].a[m, j]), 4)[:90], alg.show(P.of(pt[m]), 4)[:90])
            if topo is not None and want in ("topology", "both"):
                w = topology(flags, o["topo_style"])
                t = topo.a[i] if isinstance(topo, A) else topo[i]
                if topo.shape != (n,) or not same(P.of(t), P.of(w)):
                    return "the topology of line %d is %s instead of %s" % (i, t, w)
        if nr_patches > 1 and not active:
            return "no patch is selected"
        return None

    seeds = seeds_of(7)
    at = [(0.13, 0.21, 0.17), (1.1, -0.4, 0.6), (-0.7, 0.9, -0.55), (2.3, 1.2, 0.4), (-1.6, -1.3, 1.1), (0.35, 1.9, -1.2), (-2.6, 0.3, 0.9)]
    # every way a line can end
    ends = {}
    for st, sg in itertools.product(range(len(UNIT)), (1, -1)):
        ends["direction %d%s" % (st, "" if sg > 0 else " reversed")] = (dict(start=st, sign=sg), {})
    ends.update({
        "turning": (dict(turn=(0, 1, 2)), {}), "turning more": (dict(turn=(5, 3, 0, 2)), {}),
        "step 1/4": (dict(), dict(ds0=H / 2)), "fraction": (dict(start=2), dict(ds0_frac=F(1, 4))),
        "inner boundary": (dict(start=0), dict(ibound=F(1, 2))), "inner boundary below": (dict(start=3), dict(ibound=F(3, 5))),
        "inner boundary through": (dict(start=1, turn=(0, 1)), dict(ibound=1)),
        "outer radius": (dict(start=1), dict(obound_r=2)), "outer radius and inner": (dict(start=3), dict(obound_r=F(3, 2), ibound=F(1, 2))),
        "length": (dict(turn=(0, 1)), dict(max_length=F(7, 5))), "length, steps": (dict(), dict(max_length=F(3, 2))), "length 1/5": (dict(start=2), dict(max_length=F(1, 5))),
        "time": (dict(speed=(2, 1, F(1, 2))), dict(max_t=F(9, 10))), "time, fast": (dict(start=1, speed=(4,)), dict(max_t=F(1, 3))),
        "time and length": (dict(speed=(2,), turn=(0, 3)), dict(max_t=F(1, 2), max_length=F(17, 10))),
        "length and time": (dict(speed=(2,), turn=(0, 3)), dict(max_t=2, max_length=F(6, 5))),
        "number": (dict(turn=(0, 4)), dict(maxit=3)), "one step": (dict(), dict(maxit=1)), "two steps": (dict(start=5), dict(maxit=2)),
        "rest": (dict(stop=2), {}), "rest at once": (dict(stop=0), {}), "rest, inner": (dict(stop=3), dict(ibound=F(1, 2))),
        "adapting": (dict(adapt=(2, F(1, 2), 1), turn=(0, 1)), dict(method="rk45")), "growing": (dict(adapt=(2,)), dict(method="euler1a")),
        "shrinking": (dict(adapt=(F(3, 4),)), dict(method="rk12", maxit=6)), "adapting to a length": (dict(adapt=(2, F(1, 2)), turn=(0, 1, 3)), dict(method="rk45", max_length=F(8, 5))),
        "adapting to a time": (dict(adapt=(F(1, 2), 2), speed=(2, 1)), dict(method="rk12", max_t=F(3, 4))),
        "bounds": (dict(turn=(0, 1, 2)), dict(obound0=[-2, -2, F(-3, 2)], obound1=[F(5, 2), 2, F(3, 2)])),
        "lower bound": (dict(start=1), dict(obound0=[F(-3, 2), -1, -1])), "upper bound": (dict(start=2), dict(obound1=[1, F(3, 2), 1])),
        "outside": (dict(start=0), dict(obound1=[F(1, 10), F(1, 10), F(1, 10)])),
    })
    for a, b in itertools.product(range(len(UNIT)), repeat=2):
        for ib in (F(3, 5), 1):
            ends["ways %d and %d around %s" % (a, b, ib)] = (dict(start=a, back=b, sign=-1 if (a + b) % 2 else 1), dict(ibound=ib, obound_r=3 if a == b else 0))
    for name, (w, kw) in sorted(ends.items()):
        for sd in (1, 2, 3) if not name.startswith("ways") else (3,):
            for rule in ("line", "topology"):
                for style in ("msphere", "generic") if rule == "topology" else ("msphere",):
                    def one(w=w, kw=kw, sd=sd, rule=rule, style=style):
                        return compare(World(seeds[:3], at, vary=False, **w), 3, dict(kw, stream_dir=sd, topo_style=style), want=rule)
                    vn.defer(rule, "%s, %s%s" % (name, {1: "forward", 2: "backward", 3: "both ways"}[sd], ", " + style if rule == "topology" else ""), Y + "_py_streamline", one)
    # output, methods, two dimensions, patches
    for out in (1, 2, 3):
        for name in ("turning", "inner boundary", "length", "rest"):
            w, kw = ends[name]
            vn.defer("line", "%s, output %d" % (name, out), Y + "_py_streamline", lambda w=w, kw=kw, out=out: compare(World(seeds[:3], at, **w), 3, dict(kw, output=out)))
    for two in ((0,), (1,), (2,)):
        for name in ("direction 5", "turning", "length", "inner boundary"):
            w, kw = ends[name]
            kw = dict(kw, maxit=20)
            vn.defer("line", "%s, without %s" % (name, "xyz"[two[0]]), Y + "_py_streamline", lambda w=w, kw=kw, two=two: compare(World(seeds[:3], at, **w), 3, kw, two))
    for name in ("turning", "length"):
        w, kw = ends[name]
        vn.defer("line", "%s, AMR" % name, Y + "_py_streamline", lambda w=w, kw=kw: compare(World(seeds[:2], at, **w), 2, kw, nr_patches=3))
    for m, spell in [(m, s) for m in METH for s in (m, CODE[m], " %s " % m.upper())] + [("euler1", "euler")]:
        def meth(m=m, spell=spell):
            wd = World(seeds[:2], at, turn=(0, 1))
            r = compare(wd, 2, dict(method=spell))
            if r:
                return r
            if {c[0] for c in wd.calls} != {m}:
                return "uses %s" % sorted({c[0] for c in wd.calls})
            for err, lo, hi in [c[1] for c in wd.calls]:
                want = {"euler1a": F(4, 100), "rk12": F(15, 1000), "rk45": F(1, 100000)}.get(m)
                if want is not None and abs(wd.num(err) - float(want)) > 1e-12:
                    return "the allowed error is %s" % (err,)
                if abs(wd.num(lo) - HV / 100) > 1e-12 or abs(wd.num(hi) - HV * 100) > 1e-9:
                    return "step sizes from %s to %s" % (lo, hi)
        vn.defer("line", "method %r" % (spell,), Y + "_py_streamline", meth)
    for bad in ("rk5", 9):
        def unknown(bad=bad):
            try:
                compare(World(seeds[:1], at), 1, dict(method=bad))
            except Raised:
                return None
            return "an unknown method is used"
        vn.defer("line", "method %r" % (bad,), Y + "_py_streamline", unknown)
    for c in ("cell", "node", "Node", "face", "Edge", None):
        def center(c=c):
            asked = []
            trace(World(seeds[:1], at), 1, {}, center=c, asked=asked)
            want = "cell" if c is None or c.lower() in ("face", "edge") else c
            return None if len(asked) >= 2 and set(asked) == {want} else "asks the seeds for points %r" % (asked,)
        vn.defer("split", "seeds centered %s" % c, Y + "calc_streamlines", center)
    # processes and chunks
    for n, pr, cf in itertools.product((1, 2, 5, 7), (1, 2, 3, 8), (1, 2, 4)):
        for out in (3,) if pr > 2 else (1, 2, 3):
            def split(n=n, pr=pr, cf=cf, out=out):
                return compare(World(seeds[:n], at, vary=True, turn=(0, 3, 1)), n, dict(nr_procs=pr, chunk_factor=cf, output=out, ibound=F(1, 2), topo_style="generic" if n > 2 else "msphere"), wrap=bool(n % 2))
            vn.defer("split", "%d seeds, %d processes, %d chunks each, output %d" % (n, pr, cf, out), Y + "calc_streamlines", split)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 4, "interpreted functions")
