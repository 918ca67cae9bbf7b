"""A disk in the domain of values: HDF5 files and npz archives of symbols, and text whose numbers
are symbols. What the analysed code writes to it is what it reads from it."""
from __future__ import annotations
import copy as _copy
import fnmatch as _fn
import posixpath as _pp
import re as _re
import urllib.parse as _url
import xml.etree.ElementTree as _ET
from .alg import P, var
from .interp import A, Ext, Native, Obj, Raised, Unsupp, asint, arr, EXC
from . import npmodel

OSERR = ["OSError", "IOError", "EnvironmentError", "Exception", "BaseException"]


def refused(names, text=""):
    """what the file system and the libraries refuse for certain"""
    r = Raised(names, text)
    r.explicit = True
    return r


class Tok(str):
    """a number in a text"""
    home = None

    def __format__(self, spec):
        m = _re.match(r"^[ +\-0-9,<>=^]*?(?:\.(\d+))?([a-zA-Z%]?)$", spec)
        kind, digits = (m.group(2) or "r", m.group(1)) if m else ("s", "0")
        if kind in "rs" and digits is None or int(digits or 6) >= 15:
            return str(self)
        return str(self.home.token(self.home.tok[str(self)] + var("rounding")))


class Disk:
    def __init__(self, home="/run"):
        self.home = home
        self.files = {}
        self.tok = {}
        self.opened = []        # (file, path) in the order of reading

    # --- numbers in texts ----------------------------------------------------------------
    def token(self, x):
        if isinstance(x, P) and asint(x) is None:
            for t, y in self.tok.items():
                if y == x:
                    return self.mark(t)
            t = "n_%d_" % len(self.tok)
            self.tok[t] = x
            return self.mark(t)
        return x

    def mark(self, t):
        t = Tok(t)
        t.home = self
        return t

    def number(self, t, d=None):
        if t in self.tok:
            return self.tok[t]
        return P.of(int(t) if npmodel.asint_dtype(d) else float(t))

    # --- hdf5 ----------------------------------------------------------------------------
    def abspath(self, f):
        return _pp.normpath(_pp.join(self.home, f))

    def h5group(self, name, tree, pre):
        def full(k):
            return k.strip("/") if k.startswith("/") else (pre + "/" + k).strip("/")

        def node(k):
            k = "/".join(x for x in k.split("/") if x not in ("", "."))
            if k in tree["data"]:
                return self.dataset(name, tree, k)
            if any(x.startswith(k + "/") for x in list(tree["data"]) + list(tree["attrs"])) or k in tree["groups"] or not k:
                return self.h5group(name, tree, k)
            raise refused(EXC["KeyError"], "%s has no %s" % (name, k))

        def get(it, o, a, k):
            if not isinstance(a[0], str):
                raise refused(EXC["TypeError"], "a group is indexed with %r" % (a[0],))
            return node(full(a[0]))

        def put(it, o, a, k):
            v = a[1]
            tree["data"][full(a[0])] = (v if isinstance(v, A) else npmodel.toarr(v)).copy()

        def names():
            q = pre + "/" if pre else ""
            return sorted({x[len(q):].split("/")[0] for x in list(tree["data"]) + list(tree["groups"]) if x.startswith(q) and x != pre})

        def create(it, a, k):
            put(it, None, [a[1], k["data"] if "data" in k else a[2]], {})
            return node(full(a[1]))

        def group(it, a, k):
            tree["groups"].add(full(a[1]))
            return node(full(a[1]))
        m = {"__getitem__": get, "__setitem__": put, "create_dataset": Native(create), "create_group": Native(group),
             "__contains__": lambda it, o, a, k: full(a[0]) in tree["data"] or full(a[0]) in tree["groups"],
             "keys": Native(lambda it, a, k: names()),
             "__iter__": lambda it, o, a, k: names(),
             "items": Native(lambda it, a, k: [(n, node(full(n))) for n in names()]),
             "attrs": lambda it, o: self.attrs(tree, pre),
             "close": Native(lambda it, a, k: None), "name": "/" + pre}
        return Obj(None, model=m)

    def attrs(self, tree, pre):
        return tree["attrs"].setdefault(pre, {})

    def dataset(self, name, tree, loc):
        v = tree["data"][loc]

        def forward(key):
            for s in key if isinstance(key, tuple) else (key,):
                if isinstance(s, slice) and s.step is not None and (asint(s.step) is None or asint(s.step) <= 0):
                    raise refused(EXC["ValueError"], "the data set is read with the step %s" % (s.step,))

        def get(it, o, a, k):
            forward(a[0])
            self.opened.append((name, loc))
            r = it.getitem(v.copy(), a[0])
            return r

        def direct(it, a, k):
            dest = a[1]
            sel = k.get("source_sel")
            if sel is None and len(a) > 2:
                sel = a[2]
            self.opened.append((name, loc))
            if sel is None:
                sel = Ellipsis
            forward(sel)
            src = it.getitem(v.copy(), sel)
            src = src if isinstance(src, A) else npmodel.toarr(src)
            if tuple(src.a.shape) != tuple(dest.a.shape):
                raise refused(EXC["TypeError"], "read_direct of shape %s into %s" % (src.a.shape, dest.a.shape))
            dest.a[...] = src.a
        return Obj(None, model={"shape": lambda it, o: v.a.shape, "dtype": lambda it, o: it.getattr(v, "dtype"),
                                "__getitem__": get, "read_direct": Native(direct), "ndim": v.a.ndim,
                                "__len__": lambda it, o, a, k: v.a.shape[0],
                                "__array__": lambda it, o: v.copy(),
                                "attrs": lambda it, o: self.attrs(tree, loc)})

    # --- npz -----------------------------------------------------------------------------
    def npz(self, name, d):
        def get(it, o, a, k):
            if not isinstance(a[0], str) or a[0] not in d:
                raise refused(EXC["KeyError"], "%s has no %s" % (name, a[0]))
            self.opened.append((name, a[0]))
            v = d[a[0]]
            return v.copy() if isinstance(v, A) else list(v)
        return Obj(None, model={"__getitem__": get, "keys": Native(lambda it, a, k: list(d)),
                                "__contains__": lambda it, o, a, k: a[0] in d,
                                "__iter__": lambda it, o, a, k: list(d),
                                "files": list(d), "close": Native(lambda it, a, k: None)})

    # --- texts ---------------------------------------------------------------------------
    def text(self, path, mode):
        if "w" in mode:
            self.files[path] = ""
        elif path not in self.files:
            raise refused(OSERR, path)
        pos = [0]

        def write(it, a, k):
            if not isinstance(a[1], str):
                raise Unsupp("writing %r" % (a[1],))
            self.files[path] += a[1]

        def readline(it, a, k):
            t = self.files[path]
            e = t.find("\n", pos[0]) + 1 or len(t)
            r = t[pos[0]:e]
            pos[0] = e
            return r

        def read(it, a, k):
            r = self.files[path][pos[0]:]
            pos[0] = len(self.files[path])
            return r

        def lines(it, o, a, k):
            return read(it, [o], {}).splitlines(True)
        return Obj(None, model={"write": Native(write), "readline": Native(readline), "read": Native(read),
                                "readlines": Native(lambda it, a, k: lines(it, None, [], {})),
                                "__iter__": lines, "close": Native(lambda it, a, k: None)})

    def element(self, e):
        kids = lambda xs: [self.element(x) for x in xs]

        def find(it, a, k):
            r = e.find(a[1])
            return None if r is None else self.element(r)
        def put(it, o, a, k):
            e[asint(a[0])] = a[1].attrs["__el__"]

        def drop(it, o, a, k):
            del e[asint(a[0])]
        return Obj(None, attrs={"__el__": e}, model={
            "__setitem__": put, "__delitem__": drop, "tail": e.tail,
            "find": Native(find), "findall": Native(lambda it, a, k: kids(e.findall(a[1]))),
            "iter": Native(lambda it, a, k: kids(e.iter(*a[1:]))),
            "get": Native(lambda it, a, k: e.get(*a[1:], **k)), "attrib": dict(e.attrib), "tag": e.tag, "text": e.text,
            "__iter__": lambda it, o, a, k: kids(list(e)), "__len__": lambda it, o, a, k: len(e),
            "__getitem__": lambda it, o, a, k: self.element(e[asint(a[0])])})

    # -------------------------------------------------------------------------------------
    def hooks(self):
        """functions of the package that only choose between libraries or list directories"""
        def xml(it, a, k):
            return it.ext["xml.etree.ElementTree.parse"](it, a, k)

        def xinclude(it, a, k):
            root = it.call(it.getattr(a[0], "getroot"), [], {})
            it.call_qual("viscid.compat._xdmf_include.include", [root], {"base_url": k.get("base_url", a[1] if len(a) > 1 else None)})
        return {"viscid.vutil.slice_globbed_filenames": lambda it, a, k: self.abspath(a[0]),
                "viscid.compat.element_tree.parse": xml, "viscid.compat.element_tree.xinclude": xinclude}

    def install(self, it):
        it.written = self.token
        x = it.ext
        up = dict(x)

        def h5file(it, a, k):
            p, mode = self.abspath(a[0]), (a[1] if len(a) > 1 else k.get("mode", "r"))
            if mode == "w":
                self.files[p] = {"data": {}, "attrs": {}, "groups": set()}
            if not isinstance(self.files.get(p), dict):
                raise refused(OSERR, "no file %s" % p)
            return self.h5group(p, self.files[p], "")

        def fl(it, a, k):
            if isinstance(a[0], str) and a[0] in self.tok:
                return self.tok[a[0]]
            return up["builtins.float"](it, a, k)

        def fromstring(it, a, k):
            d = npmodel.dtype_of(a, k, 1)
            r = arr([self.number(t, d) for t in a[0].split((k.get("sep") or " ").strip() or None)])
            r.dtype = d
            return r

        def npload(it, a, k):
            p = self.abspath(a[0])
            if p not in self.files:
                raise refused(OSERR, "no file %s" % p)
            return self.npz(p, self.files[p][1])

        def savez(it, a, k):
            p = self.abspath(a[0])
            p = p if p.endswith(".npz") else p + ".npz"
            self.files[p] = ("npz", {n: v.copy() if isinstance(v, A) else v for n, v in k.items()})

        def nparray(it, a, k):
            if isinstance(a[0], (list, tuple)) and all(isinstance(q, str) for q in a[0]):
                return list(a[0])
            return up["numpy.array"](it, a, k)

        def loadtxt(it, a, k):
            rows = [[self.number(t) for t in ln.split("#")[0].split()] for ln in self.files[self.abspath(a[0])].splitlines()]
            rows = [r for r in rows if r]
            return arr([r[0] for r in rows] if all(len(r) == 1 for r in rows) else rows)

        def xml(it, a, k):
            p = self.abspath(a[0])
            if not isinstance(self.files.get(p), str):
                raise refused(OSERR, "no file %s" % p)
            root = _ET.fromstring(self.files[p])
            return Obj(None, model={"getroot": Native(lambda it, a, k: self.element(root))})
        x["sets.Set"] = x["builtins.set"]
        x["urlparse.urljoin"] = x["urllib.parse.urljoin"] = lambda it, a, k: _url.urljoin(*a)
        x["copy.copy"] = lambda it, a, k: self.element(_copy.copy(a[0].attrs["__el__"])) \
            if isinstance(a[0], Obj) and "__el__" in a[0].attrs else up["copy.copy"](it, a, k)
        x["h5py.File"] = h5file
        x["builtins.float"] = fl
        x["numpy.fromstring"] = fromstring
        x["numpy.load"] = npload
        x["numpy.savez"] = x["numpy.savez_compressed"] = savez
        x["numpy.array"] = nparray
        x["numpy.loadtxt"] = x["numpy.genfromtxt"] = loadtxt
        x["numpy.string_"] = lambda it, a, k: a[0]
        x["builtins.open"] = x["io.open"] = lambda it, a, k: self.text(self.abspath(a[0]), a[1] if len(a) > 1 else k.get("mode", "r"))
        x["xml.etree.ElementTree.parse"] = xml
        x["time.time"] = lambda it, a, k: P.of(0.5)
        x["glob.glob"] = lambda it, a, k: sorted(p for p in self.files if _fn.fnmatch(p, self.abspath(a[0])))
        for n in ("join", "dirname", "basename", "normpath", "splitext", "split", "isabs"):
            x["os.path." + n] = (lambda f: lambda it, a, k: f(*a))(getattr(_pp, n))
        x["os.path.expanduser"] = x["os.path.expandvars"] = lambda it, a, k: a[0]
        x["os.path.abspath"] = x["os.path.realpath"] = lambda it, a, k: self.abspath(a[0])
        x["os.path.exists"] = x["os.path.isfile"] = lambda it, a, k: self.abspath(a[0]) in self.files
        x["os.path.isdir"] = lambda it, a, k: any(f.startswith(self.abspath(a[0]).rstrip("/") + "/") for f in self.files)
        x["fnmatch.fnmatchcase"] = lambda it, a, k: _fn.fnmatchcase(*a)
        x["os.getcwd"] = lambda it, a, k: self.home
        return it
