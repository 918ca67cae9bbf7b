"""Syntax tree helpers shared by the structural checks."""
from __future__ import annotations
import ast
import builtins
from .proj import Func, Cls, Mod

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
BUILTINS = set(dir(builtins)) | {"unicode", "basestring", "raw_input", "xrange", "long", "reload",
                                 "execfile", "cmp", "file"}


class Scope:
    """one function body (or module body) with its lexical position"""
    __slots__ = ("mod", "cls", "node", "qual", "parent", "_imports", "_assigned")

    def __init__(self, mod, cls, node, qual, parent):
        self.mod, self.cls, self.node, self.qual, self.parent = mod, cls, node, qual, parent
        self._imports = None
        self._assigned = None

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    def walk(self):
        """nodes of this scope, not of nested functions (but of nested lambdas/comprehensions)"""
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        stack = list(reversed(body))
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                stack.extend(reversed(n.decorator_list + n.args.defaults +
                                      [d for d in n.args.kw_defaults if d is not None]))
                continue
            if isinstance(n, ast.ClassDef):
                stack.extend(reversed(n.decorator_list + n.bases))
                continue
            stack.extend(reversed(list(ast.iter_child_nodes(n))))

    @property
    def imports(self):
        if self._imports is None:
            d = {}
            if not isinstance(self.node, ast.Module):
                for n in self.walk():
                    if isinstance(n, ast.Import):
                        for a in n.names:
                            if a.asname:
                                d[a.asname] = a.name
                            else:
                                d[a.name.split(".")[0]] = a.name.split(".")[0]
                    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                        for a in n.names:
                            d[a.asname or a.name] = n.module + "." + a.name
            self._imports = d
        return self._imports

    @property
    def assigned(self):
        """names bound in this function other than by import"""
        if self._assigned is None:
            s = set()
            if not isinstance(self.node, ast.Module):
                a = self.node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    s.add(x.arg)
                for x in (a.vararg, a.kwarg):
                    if x is not None:
                        s.add(x.arg)
                glob = set()
                for n in self.walk():
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        s.add(n.name)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        s.add(n.name)
                    elif isinstance(n, ast.Global):
                        glob |= set(n.names)
                s -= glob
                s -= set(self.imports)
            self._assigned = s
        return self._assigned


def scopes(proj, compat=False):
    for mn, m in sorted(proj.mods.items()):
        if not compat and mn.startswith("viscid.compat"):
            continue
        yield from mod_scopes(m)


def mod_scopes(m):
    def rec(node, cls, qual, parent):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s = Scope(m, cls, n, qual + "." + n.name, parent)
                yield s
                yield from rec(n, None, s.qual, s)
            elif isinstance(n, ast.ClassDef):
                yield from rec(n, n.name, qual + "." + n.name, parent)
            else:
                yield from rec(n, cls, qual, parent)
    top = Scope(m, None, m.tree, m.name + ".<module>", None)
    yield top
    yield from rec(m.tree, None, m.name, top)


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def parent_map(mod):
    pm = getattr(mod, "_pm", None)
    if pm is None:
        pm = parents(mod.tree)
        try:
            mod._pm = pm
        except AttributeError:
            pass
    return pm


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + "." + e.attr
    return None


def resolve(proj, scope, e):
    """Func | Cls | Mod | ('ext', dotted name) | ('global', mod, name) | None"""
    if isinstance(e, ast.Name):
        s = scope
        while s is not None:
            if e.id in s.imports:
                d = s.imports[e.id]
                if d.startswith("viscid"):
                    return proj.mods.get(d) or (proj.resolve_name(
                        proj.mods[d.rsplit(".", 1)[0]], d.rsplit(".", 1)[1])
                        if "." in d and d.rsplit(".", 1)[0] in proj.mods else None)
                return ("ext", d)
            if e.id in s.assigned:
                return None
            s = s.parent
        r = proj.resolve_name(scope.mod, e.id)
        if r is None and e.id in BUILTINS:
            return ("ext", "builtins." + e.id)
        return r
    if isinstance(e, ast.Attribute):
        b = resolve(proj, scope, e.value)
        if isinstance(b, Mod):
            r = proj.resolve_name(b, e.attr)
            if r is None:
                r = proj.mods.get(b.name + "." + e.attr)
            return r
        if isinstance(b, Cls):
            return b.find(e.attr)
        if isinstance(b, tuple) and b[0] == "ext":
            return ("ext", b[1] + "." + e.attr)
    return None


def ext(proj, scope, e):
    r = resolve(proj, scope, e)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1]
    return None


def loc(mod, node):
    return "%s:%s" % (mod.rel, getattr(node, "lineno", "?"))


def calls(scope):
    for n in scope.walk():
        if isinstance(n, ast.Call):
            yield n


def is_test_scope(scope):
    """self tests and command line entry points of modules"""
    n = scope.qual.split(".")
    return any(x in ("_main", "main") or x.startswith("_test") for x in n) or \
        "__main__" in n


def under_main_guard(mod, node):
    pm = parent_map(mod)
    while node is not None:
        if isinstance(node, ast.If) and "__name__" in ast.dump(node.test):
            return True
        node = pm.get(node)
    return False
