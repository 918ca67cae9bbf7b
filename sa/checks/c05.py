"""Typestate of every file the package opens (Python files, HDF5 and npz files,
Fortran units).  Each acquisition site is an obligation: the handle must be
(a) the context of a with statement, (b) a local that is closed in a finally
clause, (c) returned, in which case the obligation moves to every caller, or
(d) stored on an object whose class can close it (close() that releases and
forgets the handle, __exit__ that calls it) with everything that can fail
between opening and returning guarded by a handler that closes it again."""
import ast
from .. import astu

ACQ = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open",
       "h5py.File", "numpy.load", "zipfile.ZipFile", "tarfile.open", "os.fdopen", "os.open",
       "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "builtins.file", "netCDF4.Dataset"}
FORTRAN = {"fopen"}
CATCHALL = {"BaseException", "Exception"}


def is_acq(ctx, s, call):
    n = astu.ext(ctx.proj, s, call.func)
    if n in ACQ:
        return n
    if isinstance(call.func, ast.Attribute) and call.func.attr in FORTRAN and \
            isinstance(call.func.value, ast.Name):
        return "fortran unit"
    return None


def closes(node, names):
    """does the statement (list) call .close()/fclose on one of the handles or on self?"""
    for st in node if isinstance(node, list) else [node]:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                d = astu.dotted(n.func.value)
                if n.func.attr in ("close", "__exit__", "release", "_close") and \
                        (d in names or d == "self"):
                    return True
                if n.func.attr in ("fclose", "close") and any(
                        astu.dotted(a) in names for a in n.args):
                    return True
                if d == "self" and ("close" in n.func.attr or "cleanup" in n.func.attr):
                    return True
    return False


def protects(tr, names):
    """a try statement that closes the handle whatever is raised in its body"""
    if closes(tr.finalbody, names):
        return True
    for h in tr.handlers:
        t = h.type
        if t is None or (astu.dotted(t) or "").split(".")[-1] in CATCHALL:
            if closes(h.body, names):
                return True
    return False


def can_raise(st, names):
    """conservative: calls and raises may fail, except tests of the handle itself"""
    if isinstance(st, ast.If):
        tn = {astu.dotted(n) for n in ast.walk(st.test)}
        if tn & names and not any(isinstance(n, ast.Call) for n in ast.walk(st.test)):
            # `if self._unit < 0: raise` is the failure of the acquisition itself
            return any(can_raise(x, names) for x in st.body + st.orelse
                       if not isinstance(x, ast.Raise))
    for n in ast.walk(st):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return True
        if isinstance(n, ast.Call):
            return True
    return False


def following(pm, node, stop):
    """statements executed after `node` inside the same function, innermost block first"""
    out = []
    cur = node
    while cur is not None and cur is not stop:
        par = pm.get(cur)
        if par is None:
            break
        for field in ("body", "orelse", "finalbody"):
            blk = getattr(par, field, None)
            if isinstance(blk, list) and cur in blk:
                out.append((par, blk[blk.index(cur) + 1:]))
        cur = par
    return out


def enclosing_protection(pm, node, stop, names):
    cur = pm.get(node)
    prev = node
    while cur is not None and cur is not stop:
        if isinstance(cur, ast.Try) and prev in cur.body and protects(cur, names):
            return True
        prev, cur = cur, pm.get(cur)
    return False


def rest_protected(pm, stmt, fnode, names):
    if enclosing_protection(pm, stmt, fnode, names):
        return None
    for par, sts in following(pm, stmt, fnode):
        for st in sts:
            if isinstance(st, ast.Try):
                if protects(st, names):
                    # what follows is only reached once the handle is safe or closed
                    if closes(st.finalbody, names):
                        return None
                    continue
                if any(can_raise(x, names) for x in st.body):
                    return st
            elif isinstance(st, ast.With) and any(
                    astu.dotted(i.context_expr) in names or
                    (isinstance(i.context_expr, ast.Call) and
                     any(astu.dotted(a) in names for a in i.context_expr.args))
                    for i in st.items):
                return None
            elif isinstance(st, ast.Return):
                return None if not can_raise(st, names) else st
            elif can_raise(st, names):
                return st
    return None


def run(ctx):
    proj = ctx.proj
    ctx.rule("closed", "every opened file is closed on every way out, including exceptions")
    ctx.rule("owner", "a class that keeps a file handle can close it, forgets it, and closes it in __exit__")
    ctx.rule("locked", "Fortran unit numbers are picked while holding the lock")
    ctx.rule("open-call", "wrapper.open() outside the wrapper is paired with a close on every exit")
    ctx.assumptions = ["with statements close what they open (context manager protocol of the library)"]
    nsites = 0
    acquirers = {}      # method/function name -> description (functions returning an open handle)
    todo = []
    for s in astu.scopes(proj):
        if astu.is_test_scope(s):
            continue
        for call in astu.calls(s):
            what = is_acq(ctx, s, call)
            if what and not astu.under_main_guard(s.mod, call):
                todo.append((s, call, what))
                nsites += 1
    owners = {}
    done = set()
    while todo:
        s, call, what = todo.pop()
        if id(call) in done:
            continue
        done.add(id(call))
        pm = astu.parent_map(s.mod)
        inst = "%s:%s" % (s.qual, what)
        lo = astu.loc(s.mod, call)
        par = pm.get(call)
        if what == "fortran unit":
            cur, locked = pm.get(call), False
            while cur is not None and cur is not s.node:
                if isinstance(cur, ast.With) and any("lock" in ast.unparse(i.context_expr).lower()
                                                     for i in cur.items):
                    locked = True
                cur = pm.get(cur)
            # or acquire()/release() around it
            if not locked:
                locked = any(isinstance(c.func, ast.Attribute) and c.func.attr == "acquire"
                             for c in astu.calls(s))
            if locked:
                ctx.ok("locked", inst)
            else:
                ctx.bad("locked", inst, "Fortran file opened without holding the lock", lo)
        # climb through conditional expressions and wrapping helpers
        while isinstance(par, (ast.IfExp, ast.BoolOp, ast.NamedExpr)):
            call, par = par, pm.get(par)
        if isinstance(par, ast.Call) and (astu.dotted(par.func) or "").split(".")[-1] in (
                "closing", "enter_context"):
            ctx.ok("closed", inst, "closing()")
            continue
        if isinstance(par, ast.withitem):
            ctx.ok("closed", inst, "with statement at %s" % lo)
            continue
        if isinstance(par, (ast.Return, ast.Lambda)) or isinstance(par, ast.Yield):
            nm = s.name
            if isinstance(par, ast.Yield):
                ctx.undecided("closed", inst, "yielded")
                continue
            if nm not in acquirers:
                acquirers[nm] = inst
                n = 0
                for s2 in astu.scopes(proj):
                    if astu.is_test_scope(s2):
                        continue
                    for c2 in astu.calls(s2):
                        f2 = c2.func
                        r = astu.resolve(proj, s2, f2)
                        hit = getattr(r, "qual", None) == s.qual or \
                            (isinstance(f2, ast.Attribute) and f2.attr == nm and s.cls is not None
                             and s2.mod is s.mod)
                        if hit:
                            todo.append((s2, c2, "%s()" % nm))
                            n += 1
                ctx.ok("closed", inst, "returned to %d call sites" % n)
            continue
        if isinstance(par, (ast.Assign, ast.AnnAssign)):
            tg = par.targets if isinstance(par, ast.Assign) else [par.target]
            names = {astu.dotted(t) for t in tg} - {None}
            attrs = [t for t in tg if isinstance(t, ast.Attribute)]
            if attrs:
                bad = rest_protected(pm, par, s.node, names)
                a = attrs[0].attr
                if bad is not None:
                    ctx.bad("closed", inst, "when line %d fails the handle in .%s stays open" % (
                        bad.lineno, a), lo)
                else:
                    ctx.ok("closed", inst, "stored in .%s" % a)
                if s.cls:
                    owners.setdefault((s.mod.name, s.cls, a), (s, lo))
                continue
            if not names:
                ctx.undecided("closed", inst, "unusual assignment")
                continue
            # local variable
            used_ret = any(isinstance(n, ast.Return) and n.value is not None and
                           any(astu.dotted(x) in names for x in ast.walk(n.value)
                               if isinstance(x, ast.Name))
                           and isinstance(n.value, ast.Name) for n in s.walk())
            stored = [n for n in s.walk() if isinstance(n, ast.Assign) and
                      isinstance(n.value, ast.Name) and n.value.id in names and
                      any(isinstance(t, ast.Attribute) for t in n.targets)]
            has_close = closes(s.node.body, names)
            withs = any(isinstance(n, ast.With) and any(
                astu.dotted(i.context_expr) in names or
                (isinstance(i.context_expr, ast.Call) and i.context_expr.args and
                 astu.dotted(i.context_expr.args[0]) in names) for i in n.items)
                for n in s.walk())
            bad = rest_protected(pm, par, s.node, names)
            if bad is None and (has_close or withs):
                ctx.ok("closed", inst, "closed on every exit")
            elif used_ret or stored:
                if bad is None:
                    ctx.ok("closed", inst, "handed on")
                else:
                    ctx.undecided("closed", inst, "handed on")
            elif has_close or withs:
                ctx.bad("closed", inst, "line %d may fail before the file is closed" % bad.lineno, lo)
            else:
                passed = any(isinstance(n, ast.Call) and any(
                    isinstance(a, ast.Name) and a.id in names for a in n.args) for n in s.walk())
                res = False
                if passed:
                    for n in s.walk():
                        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in names
                                                           for a in n.args):
                            r = astu.resolve(proj, s, n.func)
                            if r is not None and hasattr(r, "node") and "close" in ast.dump(r.node):
                                res = True
                            if isinstance(n.func, ast.Attribute) and astu.dotted(n.func.value) == "self":
                                res = res or any("close" in ast.dump(f.node) for f in
                                                 proj.by_method(n.func.attr))
                if res:
                    ctx.undecided("closed", inst, "closed by a helper")
                else:
                    ctx.bad("closed", inst, "opened file is never closed", lo)
            continue
        ctx.bad("closed", inst, "opened file is used without anything that closes it", lo)
    ctx.need(nsites, 20, "acquisition sites")
    # owners ---------------------------------------------------------------
    for (mn, cn, attr), (s, lo) in sorted(owners.items(), key=lambda x: x[0]):
        cls = proj.mods[mn].classes.get(cn)
        inst = "%s.%s.%s" % (mn, cn, attr)
        if cls is None:
            ctx.undecided("owner", inst)
            continue
        fam = [c for c in cls.mro()]
        closers = []
        for c in fam:
            for m in c.methods.values():
                src = m.node
                txt = ast.unparse(src)
                rel = False
                alias = {"self." + attr}
                for n in ast.walk(src):
                    if isinstance(n, ast.Assign):
                        vals = [n.value]
                        tgs = n.targets
                        if isinstance(n.value, ast.Tuple) and len(tgs) == 1 and \
                                isinstance(tgs[0], ast.Tuple):
                            vals, tgs = n.value.elts, tgs[0].elts
                            pairs = list(zip(tgs, vals))
                        else:
                            pairs = [(t, n.value) for t in tgs]
                        for t, v in pairs:
                            if astu.dotted(v) == "self." + attr and isinstance(t, ast.Name):
                                alias.add(t.id)
                for n in ast.walk(src):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        if n.func.attr == "close" and astu.dotted(n.func.value) in alias:
                            rel = True
                        if n.func.attr in ("fclose", "close") and any(
                                astu.dotted(a) in alias for a in n.args):
                            rel = True
                if rel:
                    closers.append((m, alias))
        if not closers:
            ctx.bad("owner", inst, "no method of the class closes the handle it keeps", lo)
            continue
        m, alias = closers[0]
        # forgets the handle (so that a second close or open is safe), unless h5py
        resets = any(isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) and any(
            astu.dotted(t) == "self." + attr
            for tt in (n.targets if not isinstance(n, ast.AugAssign) else [n.target])
            for t in (tt.elts if isinstance(tt, ast.Tuple) else [tt]))
            for mm, _ in closers for n in ast.walk(mm.node))
        reopen = s.name != "__init__"
        if reopen and not resets:
            ctx.bad("owner", inst, "%s() closes the handle but still remembers it as open" % m.name,
                    m.loc)
        else:
            ctx.ok("owner", inst, "closed by %s" % m.qual)
        ex = cls.find("__exit__")
        names = {mm.name for mm, _ in closers}
        if ex is None:
            ctx.bad("owner", inst + ".__exit__", "the class is not a context manager", lo)
        else:
            ok = any(mm.qual == ex.qual for mm, _ in closers) or any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                astu.dotted(n.func.value) == "self" and
                (n.func.attr in names or "close" in n.func.attr) for n in ast.walk(ex.node))
            (ctx.ok if ok else ctx.bad)("owner", inst + ".__exit__",
                                        *([""] if ok else ["__exit__ does not close the file", ex.loc]))
    ctx.need(len(owners), 4, "classes keeping a handle")
    # wrapper.open() ---------------------------------------------------------
    wrappers = {f.cls.qual for f in proj.by_method("open") if f.cls.find("close")}
    n = 0
    for s in astu.scopes(proj):
        if astu.is_test_scope(s):
            continue
        for call in astu.calls(s):
            f = call.func
            if not (isinstance(f, ast.Attribute) and f.attr in ("open", "__enter__")):
                continue
            if astu.ext(proj, s, f) or call.args:
                continue
            d = astu.dotted(f.value)
            if d is None:
                continue
            inst = "%s:%s.%s" % (s.qual, d, f.attr)
            n += 1
            if d == "self" and s.name in ("__enter__", "__init__", "open"):
                ctx.ok("open-call", inst)
                continue
            pm = astu.parent_map(s.mod)
            st = call
            while not isinstance(st, ast.stmt):
                st = pm[st]
            bad = rest_protected(pm, st, s.node, {d})
            if not closes(s.node.body, {d}):
                if s.name.startswith("_") or "open" in s.name:
                    ctx.undecided("open-call", inst, "may be closed elsewhere")
                else:
                    ctx.bad("open-call", inst, "opened and never closed", astu.loc(s.mod, call))
            elif bad is not None:
                ctx.bad("open-call", inst, "line %d may fail before the file is closed" % bad.lineno,
                        astu.loc(s.mod, call))
            else:
                ctx.ok("open-call", inst)
    ctx.stats["wrapper_classes"] = len(wrappers)
