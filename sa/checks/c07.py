"""Value numbering of viscid/bucket.py and viscid/readers/vfile_bucket.py: every history of operations on
a bucket, up to a length, interpreted and compared with what a bucket is defined to be."""
from __future__ import annotations
import itertools
import random
from ..alg import P
from ..interp import A, Obj, Ext, Native, Raised, asint
from ..disk import refused
from ..vn import VN
from .c14 import HOOKS

SRC = '''
def probe(ordered, ops, items, handles):
    b = viscid.bucket.Bucket(ordered=ordered)
    log = []
    for op in ops:
        try:
            if op[0] == "set":
                hs = list(op[1]) if op[1] is not None else None
                b.set_item(hs, items[op[2]], index_handle=op[3], _add_ref=op[4])
                log.append("changed" if op[1] is not None and hs != list(op[1]) else "ok")
            elif op[0] == "assign":
                b[op[1]] = items[op[2]]
                log.append("ok")
            elif op[0] == "remove":
                b.remove_item(items[op[1]])
                log.append("ok")
            elif op[0] == "removehandle":
                b.remove_item_by_handle(op[1])
                log.append("ok")
            elif op[0] == "delhandle":
                del b[op[1]]
                log.append("ok")
            elif op[0] == "delitem":
                del b[items[op[1]]]
                log.append("ok")
            elif op[0] == "deref":
                b.remove_reference(items[op[1]], _ref_count=op[2])
                log.append("ok")
            elif op[0] == "clear":
                b.remove_all_items()
                log.append("ok")
        except (KeyError, ValueError, TypeError):
            log.append("raises")
    got = []
    for h in handles:
        try:
            got.append([h in b, b.contains_handle(h), b[h]])
        except KeyError:
            got.append([h in b, b.contains_handle(h), "nothing"])
    has = [[x in b, b.contains_item(x)] for x in items]
    return [log, got, has, len(b), [x for x in b], list(b.values()), b.items_as_list(), [list(k) for k in b.keys()], [[list(k), x] for k, x in b.items()], list(b.get_primary_handles())]
'''


class Ref:
    """what a bucket is: items in order with their handles, every handle of one item, and how often each was added"""

    def __init__(self):
        self.items, self.n = [], 0          # [index, handles, count]

    def find(self, i):
        return next((e for e in self.items if e[0] == i), None)

    def owner(self, h):
        return next((e for e in self.items if h in e[1]), None)

    def set(self, hs, i, index, ref):
        hs = list(hs or [])
        e = self.find(i)
        if e is None and index:
            hs.append(self.n)
            self.n += 1
        if e is None:
            e = [i, [], 1]
            new = True
        else:
            new = False
        for h in hs:
            o = self.owner(h) if not (new and h in e[1]) else e
            if o is e:
                continue
            if o is not None:
                o[1].remove(h)
                if not o[1]:
                    self.items.remove(o)
            e[1].append(h)
        if new:
            if e[1]:
                self.items.append(e)
        elif ref:
            e[2] += 1
        return "ok"

    def do(self, op):
        if op[0] == "set":
            return self.set(*op[1:])
        if op[0] == "assign":
            hs = op[1]
            return self.set(list(hs) if isinstance(hs, (list, tuple)) else [hs] if hs is not None else None, op[2], True, False)
        if op[0] == "clear":
            self.items = []
            return "ok"
        e = self.owner(op[1]) if op[0] in ("removehandle", "delhandle") else self.find(op[1])
        if e is None:
            return "raises"
        if op[0] == "deref":
            e[2] -= op[2]
            if e[2] > 0:
                return "ok"
        self.items.remove(e)
        return "ok"


FILES = '''
def probe(ops):
    made = []

    class Leaf(viscid.readers.vfile.VFile):
        _detector = None

        def load(self, fname):
            self.fname = fname
            self.loads = getattr(self, "loads", 0) + 1
            if "missing" in fname:
                raise IOError("no such file")
            if "broken" in fname:
                raise ValueError("broken file")

    class Holder(viscid.readers.vfile_bucket.ContainerFile):
        _detector = None
        leaf = None

        def load(self, fname):
            self.fname = fname
            self.loads = getattr(self, "loads", 0) + 1
            kids = fname.split("+")[1:]
            for kid in kids:
                self._load_child_file("/d/" + kid, index_handle=False, file_type=self.leaf)
    Holder.leaf = Leaf
    b = viscid.readers.vfile_bucket.VFileBucket()
    seen = []
    log = []

    def number(f):
        for i, x in enumerate(seen):
            if x is f:
                return i
        seen.append(f)
        return len(seen) - 1
    for op in ops:
        try:
            if op[0] in ("load", "reload", "loadmany"):
                names = op[1]
                fs = b.load_files(names, force_reload=op[0] == "reload", file_type=Holder if "+" in (names[0] if isinstance(names, list) else names) else Leaf)
                log.append([number(f) for f in fs])
            elif op[0] == "get":
                log.append([number(b[op[1]])])
            elif op[0] == "unload":
                b[op[1]].unload()
                log.append("ok")
            elif op[0] == "unloadold":
                seen[op[1]].unload()
                log.append("ok")
            elif op[0] == "remove":
                b.remove_item(b[op[1]])
                log.append("ok")
            elif op[0] == "del":
                del b[op[1]]
                log.append("ok")
            elif op[0] == "clear":
                b.remove_all_items()
                log.append("ok")
        except (KeyError, ValueError, IndexError, AttributeError):
            log.append("raises")
    return [log, [list(h) for h in b.keys()], [number(x) for x in b], [x.loads for x in seen], len(b)]
'''


class Files:
    """what the files of a bucket are: loaded once, kept until the last that refers to them is unloaded"""

    def __init__(self):
        self.open = []          # [name, number, references]
        self.loads, self.seen, self.shown = [], [], []

    def number(self, e):
        for i, x in enumerate(self.shown):
            if x is e:
                return i
        self.shown.append(e)
        return len(self.shown) - 1

    def find(self, name):
        return next((e for e in self.open if e[0] == name), None)

    n = 0

    def load(self, name, index, ref):
        e = self.find(name)
        if e is not None:
            e[2] += ref
            return e
        if "missing" in name.split("+")[0]:
            return None
        if "broken" in name:
            raise ValueError(name)
        i = len(self.loads)
        kids = []
        e = [name, i, 1, [name], kids]
        self.loads.append(0)
        self.seen.append(e)
        self.fill(e)
        self.open.append(e)
        if index:
            e[3].append(self.n)
            self.n += 1
        return e

    def fill(self, e):
        self.loads[e[1]] += 1
        for kid in e[0].split("+")[1:]:
            k = self.load("/d/" + kid, False, 1)
            if k is not None:
                e[4].append(k)

    def drop(self, e, refs=1):
        for k in list(e[4]):
            self.drop(k)
        del e[4][:]
        if e in self.open:
            e[2] -= refs
            if e[2] <= 0:
                self.open.remove(e)

    def do(self, op):
        try:
            if op[0] in ("load", "reload"):
                out = []
                for name in op[1] if isinstance(op[1], (list, tuple)) else [op[1]]:
                    e = self.find(name)
                    if e is not None and op[0] == "reload":
                        for k in {id(k): k for k in e[4]}.values():
                            self.loads[k[1]] += 1
                        self.fill(e)
                    e = self.load(name, True, 0)
                    if e is not None:
                        out.append(e)
                return out
            if op[0] == "unloadold":
                e = self.shown[op[1]] if op[1] < len(self.shown) else None
                if e is None:
                    return "raises"
                self.drop(e)
                return "ok"
            if op[0] == "clear":
                for e in list(self.open):
                    self.drop(e)
                self.open = []
                return "ok"
            e = self.find(op[1]) if isinstance(op[1], str) else next((e for e in self.open if op[1] in e[3]), None)
            if e is None:
                return "raises"
            if op[0] == "get":
                return [e]
            self.drop(e)
            if op[0] in ("remove", "del") and e in self.open:
                self.open.remove(e)
            return "ok"
        except ValueError:
            return "raises"


def run(ctx):
    ctx.rule("bucket", "after every history each handle gives the item it was last given to, and all ways to look agree")
    ctx.rule("files", "a file is loaded once, is the same object until it is unloaded, and leaves the bucket with the last that refers to it")
    vn = VN(ctx, 400000)
    items = [("item", 0), ("item", 1), ["item 2"], {"item": 3}]
    hs = ["a", "b", ("c", 1), 0, 1, 2, 3, "q"]

    def one(ops, ordered):
        def thunk():
            it = vn.interp(dict(HOOKS), None)
            mine = [items[0], items[1], list(items[2]), dict(items[3])]
            got = it.probe("viscid.amr_grid", SRC, [ordered, [tuple(o) for o in ops], mine, list(hs)])
            vn.reached |= it.calls
            r = Ref()
            log = [r.do(o) for o in ops]
            if got[0] != log:
                j = next(j for j, (x, y) in enumerate(zip(got[0], log)) if x != y)
                return "operation %d, %r, %s instead of %s" % (j, ops[j], got[0][j], log[j])
            num = lambda x: next((i for i, y in enumerate(mine) if x is y), x)
            for h, g in zip(hs, got[1]):
                e = r.owner(h)
                if [g[0], g[1], num(g[2])] != [e is not None, e is not None, e[0] if e else "nothing"]:
                    return "the handle %r gives %r instead of %r" % (h, [g[0], num(g[2])], e and e[0])
            for i, g in enumerate(got[2]):
                if list(g) != [r.find(i) is not None] * 2:
                    return "item %d is %s the bucket" % (i, "in" if any(g) else "not in")
            want = [e[0] for e in r.items]
            hv = [e[1] for e in r.items]
            if asint(got[3]) != len(want):
                return "the length is %s instead of %d" % (got[3], len(want))
            same = (lambda x, y: x == y) if ordered else (lambda x, y: sorted(map(repr, x)) == sorted(map(repr, y)))
            for what, x, y in (("iteration", [num(q) for q in got[4]], want), ("values", [num(q) for q in got[5]], want), ("items_as_list", [num(q) for q in got[6]], want),
                               ("keys", [[asint(h) if isinstance(h, P) else h for h in q] for q in got[7]], hv),
                               ("items", [[[asint(h) if isinstance(h, P) else h for h in q[0]], num(q[1])] for q in got[8]], [[h, i] for h, i in zip(hv, want)]),
                               ("primary handles", [asint(h) if isinstance(h, P) else h for h in got[9]], [h[0] for h in hv])):
                if not same(x, y):
                    return "%s gives %r instead of %r" % (what, x, y)
            return None
        return thunk
    base = [("set", ["a"], 0, True, False), ("set", ["a", "b"], 1, True, False), ("set", ["b", "a", "b"], 0, False, False), ("set", [("c", 1)], 2, False, False), ("set", ["b"], 2, True, True),
            ("set", ["a"], 3, False, True), ("set", [], 0, True, False), ("set", None, 1, False, False), ("assign", "a", 1), ("assign", ("a", "b"), 2), ("assign", None, 3), ("assign", ["b", ("c", 1)], 0),
            ("remove", 0), ("remove", 2), ("removehandle", "a"), ("removehandle", 0), ("delhandle", "b"), ("delhandle", 1), ("delitem", 0), ("delitem", 1), ("deref", 0, 1), ("deref", 2, 1), ("deref", 1, 2), ("clear",)]
    hist = [list(t) for n in (1, 2) for t in itertools.product(base, repeat=n)]
    rnd = random.Random(7)
    for n in (3, 4, 5, 6, 8, 10):
        hist += [[rnd.choice(base[:12]) if rnd.random() < 0.65 else rnd.choice(base[12:]) for _ in range(n)] for _ in range(110)]
    group = 8
    for i in range(0, len(hist), group):
        for ordered in (True, False) if i % 3 == 0 else (True,):
            def many(part=hist[i:i + group], ordered=ordered):
                for ops in part:
                    r = one(ops, ordered)()
                    if r:
                        return "%s after %r" % (r, ops)
            vn.defer("bucket", "histories %d to %d%s" % (i, i + group - 1, ", ordered" if ordered else ""), "viscid.bucket.Bucket.set_item", many)
    def files(ops):
        it = vn.interp(dict(HOOKS, **{"viscid.vutil.slice_globbed_filenames": lambda it, a, k: a[0]}), None)
        for q in ("expandvars", "expanduser", "abspath", "realpath", "normpath"):
            it.ext["os.path." + q] = lambda it, a, k: a[0]
        got = it.probe("viscid.amr_grid", FILES, [[tuple(o) for o in ops]])
        vn.reached |= it.calls
        r = Files()
        for j, o in enumerate(ops):
            w = r.do(o)
            w = [r.number(e) for e in w] if isinstance(w, list) else w
            g = got[0][j]
            g = [asint(x) for x in g] if isinstance(g, list) else g
            if g != w:
                return "operation %d, %r, gives %s instead of %s" % (j, o, g, w)
        want = [e[3] for e in r.open]
        g = [[asint(h) if isinstance(h, P) else h for h in q] for q in got[1]]
        if g != want or asint(got[4]) != len(want):
            return "the bucket has %r instead of %r" % (g, want)
        if [asint(x) for x in got[2]] != [r.number(e) for e in r.open]:
            return "the files are %r instead of %r" % (got[2], [r.number(e) for e in r.open])
        if [asint(x) for x in got[3]] != [r.loads[e[1]] for e in r.shown]:
            return "files are loaded %r times instead of %r" % (got[3], [r.loads[e[1]] for e in r.shown])
        return None
    fbase = [("load", "/d/x"), ("load", ["/d/x", "/d/y"]), ("load", ["/d/y", "/d/y"]), ("load", "/d/A+k1+k2"), ("load", "/d/B+k1"), ("load", "/d/C+x"), ("load", "/d/D+k1+k1"), ("load", ["/d/y", "/d/missing"]),
             ("load", ["/d/x", "/d/broken", "/d/y"]), ("load", "/d/E+missing+k2"), ("reload", "/d/x"), ("reload", "/d/A+k1+k2"), ("load", ["/d/B+k1", "/d/A+k1+k2"]),
             ("get", "/d/x"), ("get", 0), ("unload", "/d/x"), ("unload", "/d/A+k1+k2"), ("unload", "/d/B+k1"), ("unload", "/d/C+x"), ("unload", "/d/D+k1+k1"), ("unload", 1), ("unload", "/d/E+missing+k2"),
             ("unloadold", 0), ("remove", "/d/y"), ("remove", "/d/A+k1+k2"), ("del", "/d/y"), ("del", "/d/B+k1"), ("del", 0), ("clear",)]

    def mixed(h):
        """children that are referred to are not removed behind their containers' backs, nor asked for by the user after them"""
        held = False
        for o in h:
            held = held or o[0] != "unload" and "/d/C+x" in str(o)
            if held and (o[0] in ("del", "unload", "remove", "unloadold") and "+" not in str(o) or "/d/x" in str(o)):
                return False
            if o[0] in ("del", "unload") and isinstance(o[1], int) and any("+" in str(q) for q in h):
                return False
        return True
    hist2 = [list(t) for n in (1, 2) for t in itertools.product(fbase, repeat=n)]
    for n in (3, 4, 5, 7, 9):
        hist2 += [[rnd.choice(fbase[:13]) if rnd.random() < 0.6 else rnd.choice(fbase[13:]) for _ in range(n)] for _ in range(100)]
    hist2 = [h for h in hist2 if mixed(h)]
    ctx.need(len(hist2), 500, "file histories")
    for i in range(0, len(hist2), group):
        def manyf(part=hist2[i:i + group]):
            for ops in part:
                r = files(ops)
                if r:
                    return "%s after %r" % (r, ops)
        vn.defer("files", "histories %d to %d" % (i, i + group - 1), "viscid.readers.vfile_bucket.VFileBucket.load_files", manyf)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")
