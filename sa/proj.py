"""Project model: every Python and Cython source of /repo parsed into one
symbol table, with name / attribute / method resolution.

Works on the *current* working tree of REPO (env VERIF_REPO overrides it for
self tests on scratch copies); nothing from the repository is imported.
"""
from __future__ import annotations
import ast
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """an anchor vanished or the source could not be analysed"""


class Func:
    __slots__ = ("mod", "cls", "name", "node", "qual", "params", "parent", "decorators",
                 "vararg", "kwarg", "defaults", "locals_", "nested")

    def __init__(self, mod, cls, node, parent=None):
        self.mod, self.cls, self.node, self.parent = mod, cls, node, parent
        self.name = getattr(node, "name", "<lambda>")
        pre = mod.name
        if parent is not None:
            pre = parent.qual + ".<locals>"
        elif cls is not None:
            pre = mod.name + "." + cls.name
        self.qual = pre + "." + self.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        pos = a.posonlyargs + a.args
        self.defaults = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(ast.unparse(t))
        self.nested = {}

    @property
    def allparams(self):
        return self.params + ([self.vararg] if self.vararg else []) + \
            ([self.kwarg] if self.kwarg else [])

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def loc(self):
        return "%s:%d" % (self.mod.rel, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name
        self.methods = {}      # name -> Func (last definition; setters separate)
        self.setters = {}
        self.attrs = {}        # class level name -> value expr
        self.bases_expr = node.bases
        self.bases = []        # resolved Cls
        self.ext_bases = []    # unresolved base expr text

    def mro(self):
        out, todo, seen = [], [self], set()
        # linearisation good enough for a repo with little diamond inheritance
        def rec(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(self)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def __repr__(self):
        return "<Cls %s>" % self.qual


class Mod:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.funcs = {}
        self.classes = {}
        self.globals = {}      # name -> list of value exprs assigned at module level
        self.imports = {}      # local name -> ("mod", fullname) | ("from", modname, name)
        self.all = None
        self.star = []         # star imported modules
        self.injected = []     # modules whose __all__ is injected here

    def __repr__(self):
        return "<Mod %s>" % self.name


def _const_strs(node):
    if isinstance(node, (ast.List, ast.Tuple)):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                out.append(e.value)
        return out
    return None


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.errors = []
        self._load()
        self._resolve_bases()
        self._subs = None
        self._by_method = None

    # ------------------------------------------------------------- loading
    def _load(self):
        root = os.path.join(self.repo, "viscid")
        if not os.path.isdir(root):
            raise AnalysisBroken("no viscid package in %s" % self.repo)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "sample"))
            for f in sorted(fn):
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                if f.endswith(".py"):
                    name = rel[:-3].replace("/", ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path, encoding="utf8") as fh:
                        src = fh.read()
                    try:
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            tree = ast.parse(src, path)
                    except SyntaxError as e:
                        raise AnalysisBroken("%s does not parse: %s" % (rel, e))
                    self._add(name, path, rel, tree)
                elif f.endswith(".pyx"):
                    name = rel[:-4].replace("/", ".")
                    from . import pyx
                    try:
                        tree = pyx.parse(path)
                    except Exception as e:   # pragma: no cover
                        raise AnalysisBroken("%s does not parse: %r" % (rel, e))
                    self._add(name, path, rel, tree)
                elif f.endswith(".pxd") and f == "misc_inlines.pxd":
                    name = rel[:-4].replace("/", ".")
                    from . import pyx
                    tree = pyx.parse(path)
                    self._add(name, path, rel, tree)
        # cdef class declarations (fields of extension types)
        self.pxd = {}
        for dp, dn, fn in os.walk(root):
            for f in sorted(fn):
                if f.endswith(".pxd"):
                    from . import pyx
                    path = os.path.join(dp, f)
                    try:
                        self.pxd[f[:-4]] = pyx.parse(path)
                    except Exception as e:
                        raise AnalysisBroken("%s does not parse: %r" % (path, e))

    def _add(self, name, path, rel, tree):
        m = Mod(name, path, rel, tree)
        self.mods[name] = m
        self._collect(m, tree.body, top=True)

    def _collect(self, m, body, top):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                f = Func(m, None, s)
                m.funcs[s.name] = f
                self._nested(f)
            elif isinstance(s, ast.ClassDef):
                self._class(m, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._relmod(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.imports.setdefault(a.asname or a.name, ("from", base, a.name))
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tgts:
                    for n in self._names(t):
                        if s.value is not None:
                            m.globals.setdefault(n, []).append(s.value)
                        else:
                            m.globals.setdefault(n, [])
                    if isinstance(t, ast.Name) and t.id == "__all__" and s.value is not None:
                        v = self._eval_all(m, s.value)
                        if isinstance(s, ast.AugAssign):
                            m.all = (m.all or []) + v
                        else:
                            m.all = v
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", None)
                if nm == "import_injector" and s.value.args:
                    lst = s.value.args[0]
                    names = _const_strs(lst)
                    if names is None and isinstance(lst, ast.Name):
                        names = list(m.all or []) if lst.id == "__all__" else \
                            (_const_strs((m.globals.get(lst.id) or [None])[0]) or [])
                    pkg = m.name
                    for k in s.value.keywords:
                        if k.arg == "package" and isinstance(k.value, ast.Constant):
                            pkg = k.value.value
                    m.injected += [pkg + "." + n.lstrip(".") for n in names or []]
            elif isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(s.test)):
                # what a script run binds is not what importers see
                self._collect(m, s.orelse, top)
                saved = {k: list(v) for k, v in m.globals.items()}
                self._collect(m, s.body, top)
                for k in saved:
                    m.globals[k] = saved[k]
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                for fld in ("body", "orelse"):
                    self._collect(m, getattr(s, fld, []) or [], top)
            elif isinstance(s, ast.Try):
                self._collect(m, s.body, top)
                self._collect(m, s.orelse, top)
                for h in s.handlers:      # fallback definitions never win
                    fb = Mod(m.name, m.path, m.rel, m.tree)
                    self._collect(fb, h.body, top)
                    for v in list(fb.funcs.values()) + list(fb.classes.values()):
                        v.mod = m
                    for k, v in fb.funcs.items():
                        if k not in m.imports and k not in m.funcs and k not in m.globals:
                            m.funcs[k] = v
                    for k, v in fb.classes.items():
                        if k not in m.imports and k not in m.classes and k not in m.globals:
                            m.classes[k] = v
                    for k, v in fb.imports.items():
                        m.imports.setdefault(k, v)
                    for k, v in fb.globals.items():
                        if k in m.globals:
                            m.globals[k] = list(v) + m.globals[k]
                        elif k not in m.imports:
                            m.globals[k] = v
                    m.star += fb.star
                self._collect(m, s.finalbody, top)

    def _eval_all(self, m, node):
        v = _const_strs(node)
        if v is not None:
            return v
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            return self._eval_all(m, node.left) + self._eval_all(m, node.right)
        if isinstance(node, ast.Name):
            return sum((_const_strs(x) or [] for x in m.globals.get(node.id, [])), [])
        return []

    def _names(self, t):
        if isinstance(t, ast.Name):
            return [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            return sum((self._names(e) for e in t.elts), [])
        if isinstance(t, ast.Starred):
            return self._names(t.value)
        return []

    def _relmod(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        is_pkg = m.path.endswith("__init__.py")
        up = s.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - up]
        return ".".join(base + ([s.module] if s.module else []))

    def _class(self, m, node):
        c = Cls(m, node)
        m.classes[node.name] = c
        self._class_body(m, c, node.body)

    def _class_body(self, m, c, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                f = Func(m, c, s)
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    c.setters[s.name] = f
                    f.qual += ".setter"
                elif any(d.endswith(".deleter") for d in decs):
                    pass
                else:
                    c.methods[s.name] = f
                self._nested(f)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tgts:
                    for n in self._names(t):
                        c.attrs[n] = s.value
                        # alias of a method: name = othermethod
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[n] = c.methods[s.value.id]
            elif isinstance(s, ast.If):
                self._class_body(m, c, s.body)
                self._class_body(m, c, s.orelse)
            elif isinstance(s, ast.Try):
                self._class_body(m, c, s.body)

    def _nested(self, f):
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef,)):
                if n.name not in f.nested:
                    g = Func(f.mod, None, n, parent=f)
                    f.nested[n.name] = g

    def _resolve_bases(self):
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.bases_expr:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Cls):
                        c.bases.append(r)
                    else:
                        c.ext_bases.append(ast.unparse(b))

    # ---------------------------------------------------------- resolution
    def resolve_name(self, m, name, depth=0):
        """module level name -> Mod | Func | Cls | ('ext', dotted) | ('global', mod, name) | None"""
        if depth > 12:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals and m.globals[name]:
            v = m.globals[name][-1]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve_name(m, v.id, depth + 1)
                if r is not None:
                    return r
            if name not in m.imports:
                return ("global", m, name)
        if name in m.imports:
            k = m.imports[name]
            if k[0] == "mod":
                return self.mods.get(k[1]) or ("ext", k[1])
            base = self.mods.get(k[1])
            sub = self.mods.get(k[1] + "." + k[2])
            if base is not None:
                r = self.resolve_name(base, k[2], depth + 1)
                if r is not None:
                    return r
            if sub is not None:
                return sub
            if k[1].startswith("viscid"):
                return None
            return ("ext", k[1] + "." + k[2])
        for s in m.star:
            sm = self.mods.get(s)
            if sm is not None and (sm.all is None or name in sm.all):
                r = self.resolve_name(sm, name, depth + 1)
                if r is not None:
                    return r
        for s in m.injected:
            sm = self.mods.get(s)
            if sm is None:
                continue
            if s.rsplit(".", 1)[1] == name:
                return sm
        for s in m.injected:
            sm = self.mods.get(s)
            if sm is not None and name in self.exported(sm):
                r = self.resolve_name(sm, name, depth + 1)
                if r is not None:
                    return r
        sub = self.mods.get(m.name + "." + name)
        if sub is not None and m.path.endswith("__init__.py"):
            return sub
        if name in m.globals:
            return ("global", m, name)
        return None

    def exported(self, m):
        out = list(m.all) if m.all is not None else []
        for s in m.injected:
            sm = self.mods.get(s)
            if sm is not None and sm is not m:
                out += [x for x in self.exported(sm)]
        return out

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Mod):
                r = self.resolve_name(b, e.attr)
                if r is None and (b.name + "." + e.attr) in self.mods:
                    return self.mods[b.name + "." + e.attr]
                return r
            if isinstance(b, Cls):
                return b.find(e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    # ------------------------------------------------------------ iteration
    def functions(self, mods=None, nested=False):
        for mn, m in sorted(self.mods.items()):
            if mods is not None and mn not in mods:
                continue
            for f in m.funcs.values():
                yield f
                if nested:
                    for g in f.nested.values():
                        yield g
            for c in m.classes.values():
                seen = set()
                for f in list(c.methods.values()) + list(c.setters.values()):
                    if f.cls is not c or id(f) in seen:
                        continue
                    seen.add(id(f))
                    yield f
                    if nested:
                        for g in f.nested.values():
                            yield g

    def classes(self):
        for mn, m in sorted(self.mods.items()):
            for c in m.classes.values():
                yield c

    def subclasses(self, c, strict=True):
        if self._subs is None:
            self._subs = {}
            for k in self.classes():
                for b in k.mro()[1:]:
                    self._subs.setdefault(b.qual, []).append(k)
        out = list(self._subs.get(c.qual, []))
        return out if strict else [c] + out

    def by_method(self, name):
        if self._by_method is None:
            self._by_method = {}
            for c in self.classes():
                for n, f in c.methods.items():
                    if f not in self._by_method.setdefault(n, []):
                        self._by_method[n].append(f)
        return self._by_method.get(name, [])

    def func(self, qual):
        """'viscid.mod.fn' or 'viscid.mod.Cls.meth' -> Func or None"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.mods.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                f = m.funcs.get(rest[0])
                if f is None:
                    r = self.resolve_name(m, rest[0])
                    f = r if isinstance(r, Func) else None
                return f
            if len(rest) == 2 and rest[0] in m.classes:
                return m.classes[rest[0]].find(rest[1])
            return None
        return None

    def need_func(self, qual):
        f = self.func(qual)
        if f is None:
            raise AnalysisBroken("anchor vanished: function %s" % qual)
        return f

    def need_cls(self, qual):
        mod, c = qual.rsplit(".", 1)
        m = self.mods.get(mod)
        r = m.classes.get(c) if m else None
        if r is None and m is not None:
            r = self.resolve_name(m, c)
        if not isinstance(r, Cls):
            raise AnalysisBroken("anchor vanished: class %s" % qual)
        return r

    def need_mod(self, name):
        m = self.mods.get(name)
        if m is None:
            raise AnalysisBroken("anchor vanished: module %s" % name)
        return m
