"""Value numbering of viscid/parallel.py: chunks are a partition in order, and a parallel map gives the
results of the calls in order, from workers that are stopped again unless they were given."""
from __future__ import annotations
import itertools
from ..alg import P, same
from ..interp import A, Obj, Ext, Native, Raised, asint
from ..npmodel import toarr
from ..disk import refused
from ..vn import VN

M = "viscid.parallel."


def num(v):
    v = asint(v) if isinstance(v, P) else v
    return v


def plain(it, v):
    return [num(x) for x in (list(v.a) if isinstance(v, A) else it.iterate(v))]


class Workers:
    """a model of executors and pools: which calls they get, in what order they finish, when they are stopped"""

    def __init__(self, made, kind, n, env):
        self.kind, self.n, self.open, self.joined, self.killed, self.env = kind, n, True, False, False, env
        made.append(self)

    def run(self, it, fun, args):
        if not self.open:
            raise refused(["RuntimeError", "ValueError"], "work for workers that are stopped")
        out = [None] * len(args)
        for i in self.env["order"](len(args)):
            out[i] = it.call(fun, args[i] if isinstance(args[i], list) else [args[i]], {})
        return out

    def obj(self):
        N = Native

        def close(it, a, k):
            self.open = False

        def terminate(it, a, k):
            self.open, self.killed = False, True

        def join(it, a, k):
            if self.open:
                raise refused(["ValueError"], "the pool is still running")
            self.joined = True
        def result(v):
            if self.killed:
                raise refused(["TimeoutError"], "the workers were terminated before they were done")
            return v
        wait = lambda v: Obj(attrs={"get": N(lambda it, a, k: result(v), "get"), "wait": N(lambda it, a, k: None, "wait"), "ready": N(lambda it, a, k: True, "ready"),
                                    "result": N(lambda it, a, k: v, "result")})
        star = lambda it, a: self.run(it, a[0], [[x] for x in it.iterate(a[1])])
        o = Obj(attrs={"close": N(close, "close"), "terminate": N(terminate, "terminate"), "join": N(join, "join"), "shutdown": N(close, "shutdown")})
        at = o.attrs
        if self.kind == "executor":
            at["map"] = N(lambda it, a, k: self.run(it, a[0], [list(t) for t in zip(*[it.iterate(x) for x in a[1:]])]), "map")
            at["submit"] = N(lambda it, a, k: wait(self.run(it, a[0], [list(a[1:])])[0]), "submit")
        else:
            at["map"] = N(lambda it, a, k: star(it, a), "map")
            at["imap"] = at["map"]
            at["map_async"] = N(lambda it, a, k: wait(star(it, a)), "map_async")
            at["starmap"] = N(lambda it, a, k: self.run(it, a[0], [list(it.iterate(x)) for x in it.iterate(a[1])]), "starmap")
            at["starmap_async"] = N(lambda it, a, k: wait(self.run(it, a[0], [list(it.iterate(x)) for x in it.iterate(a[1])])), "starmap_async")
        o.model = {"exit": lambda it, o: (close if self.kind == "executor" else terminate)(it, [], {})}
        return o


def run(ctx):
    ctx.rule("partition", "chunks are consecutive, cover every element once and differ in length by one at most, the longer ones first")
    ctx.rule("stagger", "staggered chunks take every n-th element, have the sizes that chunk_sizes tells, and put together give the list")
    ctx.rule("size", "chunks of a given size are as many as are needed for it")
    ctx.rule("map", "a parallel map gives the results in the order of the arguments, for threads, processes and neither")
    ctx.rule("stop", "a pool that was given stays open, one that was made is closed")
    vn = VN(ctx, 400000)
    have = [(n, c) for n in range(0, 18) for c in range(1, 9)]

    def ref(n, c):
        return [n // c + (1 if i < n % c else 0) for i in range(c)]

    def fresh(hooks=None):
        return vn.interp(hooks or {}, None)
    for n, c in have:
        def slices(n=n, c=c):
            it = fresh()
            got = [tuple(plain(it, t)) for t in it.iterate(it.call_qual(M + "chunk_slices", [n, c]))]
            vn.reached |= it.calls
            at, want = 0, []
            for w in ref(n, c):
                want.append((at, at + w))
                at += w
            return None if got == want else "%r instead of %r" % (got, want)

        def lists(n=n, c=c):
            it = fresh()
            seq = ["e%d" % i for i in range(n)]
            got = [it.iterate(x) for x in it.iterate(it.call_qual(M + "chunk_list", [list(seq), c]))]
            want, rest = [], list(seq)
            for w in ref(n, c):
                want.append(rest[:w])
                rest = rest[w:]
            return None if got == want else "%r instead of %r" % (got, want)

        def sizes(n=n, c=c):
            it = fresh()
            got = plain(it, it.call_qual(M + "chunk_sizes", [n, c]))
            return None if got == ref(n, c) else "%r instead of %r" % (got, ref(n, c))

        def stagger(n=n, c=c):
            it = fresh()
            seq = list(range(n))
            sl = [tuple(None if x is None else num(x) for x in it.iterate(t)) for t in it.iterate(it.call_qual(M + "chunk_interslices", [c]))]
            parts = [seq[slice(*t)] for t in sl]
            if [len(p) for p in parts] != ref(n, c):
                return "%r of %d elements have the sizes %r" % (sl, n, [len(p) for p in parts])
            back = [None] * n
            for t, p in zip(sl, parts):
                back[slice(*t)] = p
            return None if back == seq and all(p == seq[i::c] for i, p in enumerate(parts)) else "%r of %d elements" % (sl, n)
        vn.defer("partition", "slices of %d in %d" % (n, c), M + "chunk_slices", slices)
        vn.defer("partition", "list of %d in %d" % (n, c), M + "chunk_list", lists)
        vn.defer("stagger", "sizes of %d in %d" % (n, c), M + "chunk_sizes", sizes)
        vn.defer("stagger", "slices of %d in %d" % (n, c), M + "chunk_interslices", stagger)
    for n, s in itertools.product(range(1, 14), range(1, 6)):
        c = -(-n // s)

        def bysize(n=n, s=s, c=c):
            it = fresh()
            got = [tuple(plain(it, t)) for t in it.iterate(it.call_qual(M + "chunk_slices", [n, 99], {"size": s}))]
            sz = plain(it, it.call_qual(M + "chunk_sizes", [n, 99], {"size": s}))
            ls = [len(it.iterate(x)) for x in it.iterate(it.call_qual(M + "chunk_list", [list(range(n)), 99], {"size": s}))]
            if sz != ref(n, c) or ls != ref(n, c) or [b - a for a, b in got] != ref(n, c):
                return "sizes %r, slices %r and lists %r instead of %r" % (sz, got, ls, ref(n, c))
        vn.defer("size", "%d elements, %d at a time" % (n, s), M + "chunk_slices", bysize)

    # --- map ---
    SRC = '''
def probe(nr, n, kw, given, threads, force, daemonic, called, how):
    def func(i, j=None, **kws):
        called.append(i)
        return ["r", i, j, sorted(kws.items())]
    args = [(i,) if i % 2 else (i, i + 1) for i in range(n)]
    if how == "async":
        p, r = viscid.parallel.map_async(nr, func, args, args_kw=kw, threads=threads, pool=given, daemonic=daemonic)
        return r.get(100)
    return viscid.parallel.map(nr, func, args, args_kw=kw, threads=threads, pool=given, force_subprocess=force, daemonic=daemonic)
'''
    ORDERS = {"in order": range, "backwards": lambda n: range(n - 1, -1, -1), "odd ones first": lambda n: sorted(range(n), key=lambda i: (1 - i % 2, i))}
    cases = [(nr, n, kw, given, th, force, dm, how)
             for nr, n, kw in [(1, 3, None), (1, 0, None), (2, 5, None), (3, 5, "kw"), ("all", 4, "kw"), (" Auto ", 2, None), (8, 3, "kw"), ("2", 4, None)]
             for given, th, force, dm in [(False, False, False, True), (False, True, False, True), (False, False, True, True), (True, False, False, True), (False, False, False, False), (False, False, True, False)]
             for how in ("map", "async") if not (how == "async" and force)]
    for case, (on, order) in itertools.product(cases, ORDERS.items()):
        nr, n, kw, given, th, force, dm, how = case

        def pmap(case=case, order=order, which="map"):
            nr, n, kw, given, th, force, dm, how = case
            made = []
            env = {"order": order}

            def maker(kind):
                def f(it, a, k):
                    w = num(a[0]) if a else num(k.get("max_workers", k.get("processes")))
                    if w != {"all": 6, " Auto ": 6, "2": 2}.get(nr, nr):
                        raise refused(["ValueError"], "%s workers" % (w,))
                    return Workers(made, kind, w, env).obj()
                return f
            it = fresh({M + "NoDaemonPool": maker("process")})
            for q in ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor", "viscid.compat.futures.ThreadPoolExecutor"):
                it.ext[q] = maker("executor")
                it.hooks[q] = maker("executor")
            it.ext["multiprocessing.pool.ThreadPool"] = maker("thread")
            it.ext["multiprocessing.Pool"] = maker("process")
            it.ext["multiprocessing.pool.Pool"] = maker("process")
            it.ext["contextlib.closing"] = lambda it, a, k: Obj(model={"enter": a[0], "exit": lambda it, o: it.call(it.getattr(a[0], "close"), [], {})})
            it.ext["multiprocessing.cpu_count"] = lambda it, a, k: 6
            g = None
            if given:
                Workers(made, "process", 4, env)
                g = made[0].obj()
            args = {"w": 1, "v": "x"} if kw else None
            called = []
            got = it.probe("viscid.amr_grid", SRC, [nr, n, args, g, th, force, dm, called, how])
            vn.reached |= it.calls
            if which == "map":
                got = [[x if isinstance(x, (str, type(None), list)) else num(x) for x in it.iterate(r)] for r in it.iterate(got)]
                want = [["r", i, None if i % 2 else i + 1, sorted((args or {}).items())] for i in range(n)]
                if [r[:3] for r in got] != [r[:3] for r in want] or [[tuple(x) for x in r[3]] for r in got] != [r[3] for r in want]:
                    return "%r instead of %r" % (got, want)
                if sorted(num(c) for c in called) != list(range(n)):
                    return "the function is called for %r" % (called,)
                return None
            if given:
                return None if len(made) == 1 and made[0].open else "the pool that was given is closed" if not made[0].open else "other workers are made"
            if (th or force) and not made:
                return "no workers are made" if how == "map" else None
            return "workers are left running" if any(w.open for w in made) else None
        for which in ("map", "stop"):
            vn.defer(which, "%s of %s on %r%s%s%s%s%s, %s" % (how, n, nr, ", with keywords" if kw else "", ", given pool" if given else "", ", threads" if th else "", ", subprocess" if force else "", "" if dm else ", not daemonic", on),
                     M + "map", lambda which=which, pmap=pmap: pmap(which=which))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")
