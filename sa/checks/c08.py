"""No text is run as code (every module), and value numbering of the equation evaluator
(viscid/calculator/evaluator.py): what reaches eval and numexpr, when, with which names, and the
values of the field that comes back."""
from __future__ import annotations
import ast
import itertools
from .. import astu
from ..alg import P, var
from ..interp import A, Ext, Fn, Frame, Mod, Obj, Raised, Native, EXC, symarr, arr
from ..vn import VN, Order, differ
from .c14 import HOOKS
from ..disk import refused

E = "viscid.calculator.evaluator"
RUN = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.execfile", "builtins.__import__",
       "os.system", "os.popen", "os.popen2", "os.popen3", "os.popen4", "subprocess.getoutput", "subprocess.getstatusoutput",
       "commands.getoutput", "commands.getstatusoutput", "pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.loads", "_pickle.load",
       "cPickle.load", "cPickle.loads", "marshal.load", "marshal.loads", "shelve.open", "dill.load", "dill.loads", "cloudpickle.load",
       "cloudpickle.loads", "joblib.load", "yaml.load", "yaml.load_all", "yaml.unsafe_load", "yaml.unsafe_load_all", "yaml.full_load",
       "yaml.full_load_all", "timeit.timeit", "runpy.run_path", "runpy.run_module", "pandas.eval", "pandas.read_pickle", "sympy.sympify", "sympy.parse_expr",
       "code.InteractiveInterpreter", "numpy.safe_eval", "six.exec_", "imp.load_source"}
SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}


def constant(proj, s, e, depth=0):
    """is the expression text that is written in the source?"""
    if depth > 6 or e is None:
        return False
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (str, bytes))
    if isinstance(e, ast.JoinedStr):
        return all(constant(proj, s, v.value if isinstance(v, ast.FormattedValue) else v, depth + 1) for v in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
        return constant(proj, s, e.left, depth + 1) and constant(proj, s, e.right, depth + 1)
    if isinstance(e, ast.Name):
        sc = s
        while sc is not None:
            vals = []
            args = sc.node.args if isinstance(sc.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
            if args and any(a.arg == e.id for a in args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]):
                return False
            for n in sc.walk():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    vals.append(n.value)
                elif isinstance(n, (ast.For, ast.AugAssign, ast.AnnAssign, ast.withitem, ast.NamedExpr, ast.comprehension)):
                    t = getattr(n, "target", None) or getattr(n, "optional_vars", None)
                    if t is not None and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(t)):
                        return False
            if vals:
                return all(constant(proj, sc, v, depth + 1) for v in vals)
            sc = sc.parent
    return False


def sink(proj, s, n):
    """the way a node of the source would run text, or None"""
    if isinstance(n, ast.Call):
        f = astu.ext(proj, s, n.func)
        kw = {k.arg: k.value for k in n.keywords}
        false = lambda v: isinstance(v, ast.Constant) and not v.value
        if f in ("yaml.load", "yaml.load_all"):
            ld = kw.get("Loader", n.args[1] if len(n.args) > 1 else None)
            return None if ld is not None and (astu.dotted(ld) or "").split(".")[-1] in SAFE_LOADERS else f
        if f in RUN:
            t = n.args[0] if n.args else kw.get("source", kw.get("name"))
            if f in ("builtins.eval", "builtins.exec", "builtins.compile", "os.system", "os.popen") and constant(proj, s, t):
                return None
            return f
        if f in ("numpy.load", "numpy.lib.npyio.load") and "allow_pickle" in kw and not false(kw["allow_pickle"]):
            return "numpy.load of pickled objects"
        if f and f.startswith("subprocess.") and "shell" in kw and not false(kw["shell"]):
            return f + " through a shell" if not constant(proj, s, n.args[0] if n.args else kw.get("args")) else None
        if f == "builtins.getattr" and len(n.args) > 1 and astu.ext(proj, s, n.args[0]) in ("builtins", "__builtin__", "os") and \
                isinstance(n.args[1], ast.Constant) and any(r.endswith("." + str(n.args[1].value)) for r in RUN):
            return "getattr of " + str(n.args[1].value)
        return None
    if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
        return astu.ext(proj, s, n) if astu.ext(proj, s, n) in RUN else None
    return None


SRC = '''
def probe(data, crds, eqn, how, slc):
    c = viscid.coordinate.wrap_crds("nonuniform_cartesian", [(a, x) for a, x in zip("xyz", crds)])
    g = viscid.grid.Grid(name="g")
    g.time = 7
    g.set_crds(c)
    for name, d in data:
        if name == "v":
            g.add_field(viscid.field.wrap_field(d, c, name=name, center="cell", fldtype="vector", layout="interlaced", time=7))
        else:
            g.add_field(viscid.field.wrap_field(d, c, name=name, center="cell", time=7))
    if how == "grid":
        r = g["result=" + eqn]
    elif how == "field":
        r = g.get_field("result = " + eqn, slc=slc)
    elif how == "numpy":
        r = viscid.calculator.evaluator.evaluate(g, "result", eqn, try_numexpr=False, slc=slc)
    else:
        r = viscid.calculator.evaluator.evaluate(g, "result", eqn, slc=slc)
    %s
'''
SHOW = '''if not isinstance(r, viscid.field.Field):
        return ["value", r]
    return ["field", r.data, r.name, r.get_crds_nc(), r.center, r.time]'''


def run(ctx):
    ctx.rule("sink", "no statement of the package runs text that is not written in the source, outside of the evaluator")
    ctx.rule("disabled", "unless the evaluator is enabled, an equation raises and nothing is evaluated")
    ctx.rule("names", "an equation is evaluated without builtins, and its names are fields of the grid and functions of viscid.calculator.calc or numpy")
    ctx.rule("value", "the field an equation gives has the values of the formula, the name asked for and the coordinates of the grid")
    proj = ctx.proj
    # --- every module ---
    nmod = set()
    for s in astu.scopes(proj):
        if s.mod.name == E or astu.is_test_scope(s):
            continue
        nmod.add(s.mod.name)
        seen = set()
        for n in s.walk():
            k = sink(proj, s, n)
            if k is None or astu.under_main_guard(s.mod, n):
                continue
            pm = astu.parent_map(s.mod)
            par = pm.get(n)
            if not isinstance(n, ast.Call) and isinstance(par, ast.Call) and par.func is n:
                continue        # decided as a call
            if not isinstance(n, ast.Call) and isinstance(par, ast.Attribute):
                continue
            seen.add(n)
            ctx.bad("sink", "%s: %s" % (s.qual, k), "text is run by %s" % k, astu.loc(s.mod, n))
        if not seen:
            ctx.ok("sink", s.qual)
    ctx.need(len(nmod), 30, "modules")

    # --- the evaluator ---
    vn = VN(ctx, 3000000)
    ns = (3, 4, 3)
    order = {var("c%s_%d" % (x, i)).key: float(i) for x in "xyz" for i in range(9)}

    def setup(enabled):
        log = []
        ov = {} if enabled is None else {E + ".enabled": enabled}
        it = vn.interp(dict(HOOKS), ov)
        it.decider = Order({**order, var("inf").key: 1e12})
        ne = it.ext["numexpr.evaluate"]

        def numexpr(it, a, k):
            t = a[0] if a else k["ex"]
            log.append(("numexpr", t, k.get("global_dict"), k.get("local_dict", a[1] if len(a) > 1 else None)))
            for n in ast.walk(ast.parse(t.strip(), mode="eval")):
                if isinstance(n, ast.Attribute) or isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in NE):
                    raise refused(["TypeError", "Exception"], "numexpr knows no such function")
            return ne(it, a, k)

        def evaluate(it, a, k):
            g = a[1] if len(a) > 1 else k.get("globals")
            ld = a[2] if len(a) > 2 else k.get("locals")
            log.append(("eval", a[0], g, ld))
            fr = Frame(it.fr.mod)
            fr.vars = dict(ld or {})
            for n in ast.walk(ast.parse(a[0].strip(), mode="eval")):
                if isinstance(n, ast.Name) and n.id not in fr.vars:
                    raise refused(["NameError", "Exception"], n.id)
            return it.eval_in(ast.parse(a[0].strip(), mode="eval").body, fr)
        it.ext["numexpr.evaluate"] = numexpr
        it.ext["builtins.eval"] = evaluate
        for n in RUN - {"builtins.eval"}:
            it.ext[n] = lambda it, a, k, n=n: log.append((n, a[0] if a else None, None, None))
        return it, log
    from ..npmodel import NE_FN as NE
    names = ("p", "q", "x1", "_r", "pq", "p_")

    def data():
        out = [[n, symarr("f" + n, tuple(m - 1 for m in ns))] for n in names]
        return out + [["v", symarr("fv", tuple(m - 1 for m in ns) + (3,))]]

    def crds():
        return [symarr("c" + x, n) for x, n in zip("xyz", ns)]
    EQ = ["p + q", "sqrt(p**2 + q**2)", "p * 2 - 1", "-p", "p / (q + 3)", "1.5e3 * p", "abs(p - q)", "where(p > 0, p, q)", "x1 * _r + x1", "sin(p) * cos(q)",
          "p", "3 * (p + q) ** 2", "arctan2(p, q)", "exp(-p)", " p+q ", "p - q - x1", "2 ** p", "p * p", "pq * 2 + p", "p + pq", "p_ - p + q", "q + p_ * pq"]
    VEC = ["magnitude(v)", "dot(v, v)", "sqrt(dot(v, v)) + p", "sum(p)", "max(p) - p", "maximum(p, q)", "p * magnitude(v)"]
    HOSTILE = ["__import__('os')", "p.__class__", "().__class__", "exec('p')", "eval('p')", "open('file')", "getattr(p, 'name')", "os.system('p')",
               "globals()", "print(p)", "[c for c in ().__class__.__base__.__subclasses__()]", "____import____('os')", "(lambda: 1)()", "compile('p', 'p', 'eval')",
               "input('p')", "_____import_____('os')"]

    # off
    for how, eqn in itertools.product(("grid", "field", "evaluate", "numpy"), EQ[:6] + VEC[:2] + HOSTILE):
        for en in (None, False, 0):
            def off(how=how, eqn=eqn, en=en):
                it, log = setup(en)
                try:
                    it.probe("viscid.amr_grid", SRC % "return r", [data(), crds(), eqn, how, Ellipsis])
                    bad = "an equation is evaluated"
                except Raised:
                    bad = None
                vn.reached |= it.calls
                if log:
                    return "%s gets %r" % log[0][:2]
                return bad
            vn.defer("disabled", "%s of %s%s" % (how, eqn, "" if en is None else ", set to %r" % en), E + ".evaluate", off)
    for fun in ("_evaluate_numpy",):
        if fun in proj.mods[E].funcs:
            for eqn in EQ[:2]:
                def direct(fun=fun, eqn=eqn):
                    it, log = setup(None)
                    try:
                        it.probe("viscid.amr_grid", SRC.replace("viscid.calculator.evaluator.evaluate(g, \"result\", eqn, slc=slc)", "viscid.calculator.evaluator.%s(g, 'result', eqn)" % fun) % "return r",
                                 [data(), crds(), eqn, "direct", Ellipsis])
                    except Raised:
                        pass
                    return "%s gets %r" % log[0][:2] if log else None
                vn.defer("disabled", "%s of %s" % (fun, eqn), E + "." + fun, direct)

    # on: what reaches eval
    def allowed(it, v):
        if isinstance(v, (A, P, int, float, bool)) or isinstance(v, Obj) and v.cls is not None and any(c.name == "Field" for c in v.cls.mro()):
            return True
        if isinstance(v, Ext):
            return v.name.startswith("numpy.")
        if isinstance(v, Fn):
            return True
        return isinstance(v, (Obj, Native))

    def judge(it, log):
        for kind, text, g, ld in log:
            if kind not in ("eval", "numexpr"):
                return "%s is called" % kind
            if not isinstance(text, str):
                return "%s of something that is no text" % kind
            if "__" in text:
                return "%s gets %r" % (kind, text)
            if kind == "eval" and (not isinstance(g, dict) or g.get("__builtins__", 1) not in ({}, None)):
                return "eval has builtins"
            if isinstance(g, dict) and set(g) - {"__builtins__"}:
                return "%s sees %s" % (kind, sorted(set(g) - {"__builtins__"}))
            for n, v in (ld or {}).items():
                if not allowed(it, v):
                    return "%s sees %s, which is %r" % (kind, n, v)
        return None
    for how, eqn in itertools.product(("grid", "evaluate", "numpy"), EQ + VEC + HOSTILE):
        def seen(how=how, eqn=eqn):
            it, log = setup(True)
            try:
                it.probe("viscid.amr_grid", SRC % "return None", [data(), crds(), eqn, how, Ellipsis])
            except Raised:
                pass
            vn.reached |= it.calls
            return judge(it, log)
        vn.defer("names", "%s of %s" % (how, eqn), E + "._evaluate_numpy", seen)

    # on: the values
    OPS = {"sqrt": "np.sqrt", "abs": "np.abs", "where": "np.where", "sin": "np.sin", "cos": "np.cos", "arctan2": "np.arctan2", "exp": "np.exp",
           "magnitude": "viscid.magnitude", "dot": "viscid.dot", "sum": "np.sum", "max": "np.max", "maximum": "np.maximum"}

    def formula(eqn):
        import re
        t = re.sub(r"\b([A-Za-z_]\w*)\b(?=\s*\()", lambda m: OPS[m.group(1)], eqn.strip())
        return re.sub(r"(?<![\w.])(pq|p_|p|q|x1|_r|v)(?![\w(])", r'g["\1"]', t)

    def value(how, eqn, slc):
        def thunk():
            it, log = setup(True)
            got = it.probe("viscid.amr_grid", SRC % SHOW, [data(), crds(), eqn, how, slc or Ellipsis])
            it2, _ = setup(False)
            src = SRC[:SRC.index("    if how ==")] + ("    r = %s\n" % formula(eqn)) + ('    r = r.slice_and_keep(slc)\n' if slc else "") + "    " + SHOW
            want = it2.probe("viscid.amr_grid", src, [data(), crds(), eqn, how, slc])
            vn.reached |= it.calls
            if got[0] == "field" and want[0] == "value" and isinstance(want[1], A):
                return differ(got[1], want[1], "values ")     # numpy.where of fields is an array
            if got[0] != want[0]:
                return "a %s instead of a %s" % (got[0], want[0])
            r = differ(got[1], want[1], "values ")
            if r or got[0] == "value":
                return r
            if got[2] != "result":
                return "the name %r" % (got[2],)
            if got[4] != want[4]:
                return "%s centered" % got[4]
            for i in range(3):
                r = r or differ(got[3][i], want[3][i], "coordinates ")
            return r or differ(got[5], want[5], "time ")
        return thunk
    for how, eqn in itertools.product(("grid", "field", "evaluate", "numpy"), EQ + VEC):
        vn.defer("value", "%s of %s" % (how, eqn), E + "._evaluate_" + ("numpy" if how == "numpy" else "numexpr"), value(how, eqn, None))
    for how, eqn, slc in itertools.product(("field", "evaluate", "numpy"), EQ[:4] + VEC[:1], ("x=1:", "y=::2", "y=1:3,z=:1")):
        vn.defer("value", "%s of %s at %s" % (how, eqn, slc), E + "._evaluate_" + ("numpy" if how == "numpy" else "numexpr"), value(how, eqn, slc))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 3, "interpreted functions")
