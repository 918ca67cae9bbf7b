"""Interprocedural may-mutate / may-alias effect analysis.

A forward, flow-sensitive (syntax directed, joins at merges, two passes over
loop bodies) abstract interpretation.  The abstract value of an expression is
an ``AV``: the set of *roots* whose storage the value may share (``own``) and
the set of roots reachable as items of the value (``elem``).  Roots are

    ('p', <param name>, <attr path>)       parameter of the function analysed
    ('g', <module>.<name>, <attr path>)    module level object
    ('c', <class>.<attr>, <attr path>)     class level (shared) object
    ('d', <func>:<param>, ())              mutable default argument object

Each function gets a summary (mutated roots, returned alias, captured
parameters) and summaries are iterated to a fixpoint over the call graph.
"""
from __future__ import annotations
import ast
from .proj import Func, Cls, Mod

MAXPATH = 3
MAXD = 4
LOST = ("lost", "", ())

# numpy / builtin functions whose result may share storage with argument 0
ALIAS0 = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.reshape", "numpy.ravel",
    "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.rollaxis", "numpy.moveaxis",
    "numpy.expand_dims", "numpy.broadcast_to", "numpy.broadcast_arrays", "numpy.flipud",
    "numpy.fliplr", "numpy.flip", "numpy.rot90", "numpy.diagonal", "numpy.real", "numpy.imag",
    "numpy.require", "numpy.split", "numpy.array_split", "numpy.ma.asarray",
    "numpy.ma.masked_array",
}
ELEM0 = {"list", "tuple", "set", "frozenset", "dict", "sorted", "collections.OrderedDict",
         "OrderedDict", "collections.deque"}
PASS_ITER = {"iter", "reversed", "enumerate", "zip", "map", "filter", "next", "itertools.chain",
             "itertools.izip", "izip", "itertools.islice", "itertools.count", "min", "max"}
MUT0 = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal",
        "numpy.random.shuffle", "random.shuffle", "setattr", "delattr", "heapq.heappush",
        "heapq.heappop", "heapq.heapify", "numpy.add.at", "numpy.subtract.at"}
BIN_UFUNC = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power",
             "mod", "remainder", "minimum", "maximum", "arctan2", "hypot", "bitwise_and",
             "bitwise_or", "bitwise_xor", "logical_and", "logical_or", "logical_xor", "fmax",
             "fmin", "fmod", "copysign"}
UN_UFUNC = {"sqrt", "negative", "absolute", "abs", "sin", "cos", "tan", "arcsin", "arccos",
            "arctan", "exp", "log", "log10", "deg2rad", "rad2deg", "radians", "degrees",
            "square", "sign", "floor", "ceil", "rint", "reciprocal", "logical_not", "invert",
            "conjugate"}
# methods
LISTMUT = {"append", "extend", "insert", "remove", "reverse"}
DICTMUT = {"setdefault", "update", "popitem", "pop", "clear", "add", "discard",
           "move_to_end"}
ARRMUT = {"fill", "itemset", "setflags", "sort", "partition", "put", "resize", "setfield"}
METH_MUT = LISTMUT | DICTMUT | ARRMUT
METH_ALIAS = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal",
              "items", "values", "iteritems", "itervalues", "get", "__getitem__", "setdefault",
              "pop", "popitem", "getfield", "newbyteorder"}
METH_FRESH = {"copy", "astype", "flatten", "tolist", "tobytes", "sum", "mean", "min", "max",
              "dot", "cumsum", "std", "var", "any", "all", "argmax", "argmin", "argsort",
              "nonzero", "repeat", "round", "conj", "keys", "iterkeys", "index", "count",
              "strip", "lower", "upper", "split", "join", "format", "replace", "startswith",
              "endswith", "lstrip", "rstrip", "encode", "decode", "find", "rfind", "splitlines",
              "isdigit", "title", "capitalize", "rsplit", "zfill", "group", "groups", "match",
              "search", "read", "readline", "readlines", "write", "close", "seek", "tell",
              "item", "clip", "prod", "ptp", "trace", "take", "compress", "choose", "searchsorted",
              "byteswap", "issubset", "union", "intersection", "difference", "has_key", "flush",
              "isoformat", "total_seconds", "strftime", "timetuple", "partition", "rpartition"}
SCALAR_ATTR = {"real", "imag"}
SCALAR_TYPES = {"int", "float", "str", "bool", "complex", "integer", "floating", "string_types",
                "number", "Number", "generic", "bytes", "datetime", "timedelta", "datetime64",
                "timedelta64", "int_", "float_", "bool_", "slice"}
IMMUT_CALLS = {"int", "float", "str", "bool", "len", "repr", "hash", "id", "isinstance",
               "hasattr", "range", "type", "abs", "round", "sum", "any", "all", "ord", "chr",
               "print", "callable", "issubclass", "format", "divmod", "pow", "complex", "bytes",
               "dir", "vars", "slice", "super", "unicode", "long", "basestring"}


def is_mutator_name(a):
    """methods of repo objects whose documented purpose is to modify the receiver"""
    return a.startswith("set_") or a in ("adjust_crds", "clear_crds", "fill", "update_info")


class AV:
    __slots__ = ("own", "elem", "arr", "ty", "imm", "caps")

    def __init__(self, own=frozenset(), elem=frozenset(), arr=False, ty=None, imm=False,
                 caps=frozenset()):
        self.own, self.elem, self.arr, self.ty, self.imm = \
            frozenset(own), frozenset(elem), arr, ty, imm
        self.caps = frozenset(caps)     # (attribute, root, depth) an object was built from

    def __eq__(self, o):
        return (self.own, self.elem, self.arr, self.ty, self.imm, self.caps) == \
            (o.own, o.elem, o.arr, o.ty, o.imm, o.caps)

    def join(self, o):
        return AV(self.own | o.own, self.elem | o.elem, self.arr or o.arr,
                  self.ty if self.ty is o.ty else (self.ty or o.ty), self.imm and o.imm,
                  self.caps | o.caps)

    def cap(self, attr):
        """AV of the values captured in attribute ``attr``"""
        return AV({r for a, r, d in self.caps if a == attr and d == 0},
                  {(r, d) for a, r, d in self.caps if a == attr and d})

    @property
    def items_of(self):
        """AV of an item taken out of this value"""
        own = set(self.own)
        elem = set()
        for r, d in self.elem:
            if d == 1:
                own.add(r)
            elif d >= MAXD:
                elem.add((r, d))
                elem.add((r, d - 1))
            else:
                elem.add((r, d - 1))
        return AV(own, elem)

    @property
    def boxed(self):
        """elem set of a container that holds this value"""
        return frozenset({(r, 1) for r in self.own} |
                         {(r, min(d + 1, MAXD)) for r, d in self.elem} |
                         {(r, min(d + 2, MAXD)) for _, r, d in self.caps})

    @property
    def roots(self):
        return self.own | frozenset(r for r, _ in self.elem) | \
            frozenset(r for _, r, _ in self.caps)

    def __repr__(self):
        return "AV(%s|%s)" % (sorted(self.own), sorted(self.elem))


FRESH = AV()
IMM = AV(imm=True)


def ext_path(root, attr):
    k, n, path = root
    if k == "lost" or len(path) >= MAXPATH:
        return LOST
    return (k, n, path + (attr,))


class Mutation:
    __slots__ = ("root", "kind", "loc", "chain", "how")

    def __init__(self, root, kind, loc, chain=(), how=""):
        self.root, self.kind, self.loc, self.chain, self.how = root, kind, loc, chain, how

    def key(self):
        return (self.root, self.kind)

    def __repr__(self):
        return "%s %s at %s%s" % (self.root, self.how, self.loc,
                                  "".join(" via %s" % c for c in self.chain))


class Summary:
    def __init__(self):
        self.mut = {}        # (root, kind) -> Mutation
        self.ret = FRESH
        self.ret_imm = True
        self.captures = {}   # attr -> frozenset of param names captured by reference

    def state(self):
        return (frozenset(self.mut), self.ret.own, self.ret.elem, self.ret.caps, self.ret.arr,
                self.ret.ty.qual if self.ret.ty else None,
                tuple(sorted((k, v) for k, v in self.captures.items())))


LAZY = {"viscid.field.Field._fill_cache", "viscid.field.Field.data", "viscid.field.Field.crds",
        "viscid.field.Field._src_data_to_ndarray", "viscid.field.Field._xyz_src_data",
        "viscid.field.Field.layout", "viscid.field.Field.nr_comp", "viscid.field.Field.nr_comps",
        "viscid.field.Field.resolve", "viscid.field.Field.blocks", "viscid.field.Field.patches"}


class Effects:
    def __init__(self, proj, exclude=("viscid.compat.",)):
        self.p = proj
        self.sum = {}
        # lazily loading accessors: they fill caches, the observable value never changes
        self.lazy = {q for q in LAZY}
        self.funcs = [f for f in proj.functions()
                      if not any(f.mod.name.startswith(e) for e in exclude)]
        # property / plain-attribute census for attribute reads on objects of unknown class
        self.props = {}
        self.plain = set()
        for c in proj.classes():
            if c.mod.name.startswith("viscid.compat"):
                continue
            for n, f in c.methods.items():
                if f.is_property:
                    self.props.setdefault(n, []).append(f)
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and f.params and \
                            n.value.id == f.params[0]:
                        self.plain.add(n.attr)
            self.plain |= set(c.attrs)
        self.capmap = {}     # class qual -> {attr: set(ctor params)}
        self._fix()

    def _fix(self, rounds=8):
        for f in self.funcs:
            self.sum[f.qual] = Summary()
        for r in range(rounds):
            changed = 0
            for f in self.funcs:
                old = self.sum[f.qual].state()
                s = FuncAnalysis(self, f).run()
                self.sum[f.qual] = s
                if s.state() != old:
                    changed += 1
            self.rounds = r + 1
            if not changed:
                break

    def ctor_captures(self, c):
        init = c.find("__init__")
        if init is None:
            return None, {}
        return init, self.sum[init.qual].captures if init.qual in self.sum else {}


class FuncAnalysis:
    def __init__(self, eff, f):
        self.eff, self.p, self.f, self.mod = eff, eff.p, f, f.mod
        self.s = Summary()
        self.env = {}
        self.selfname = None
        if f.cls is not None and f.params and not f.is_static:
            self.selfname = f.params[0]
        self.evidence = self._evidence()
        self.globals_decl = set()
        self.rets = []
        self.chain_depth = 0

    def _evidence(self):
        """names used in ways only containers / arrays / objects support"""
        ev = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                ev.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.attr not in METH_FRESH and n.attr not in SCALAR_ATTR:
                ev.add(n.value.id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                ev.add(n.iter.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ("len", "enumerate", "zip", "list") and n.args:
                for a in n.args:
                    if isinstance(a, ast.Name):
                        ev.add(a.id)
        return ev

    # ------------------------------------------------------------------ run
    def run(self):
        for p in self.f.allparams:
            r = ("p", p, ())
            if p in (self.f.vararg, self.f.kwarg):
                self.env[p] = AV((), ((r, 1),))
            else:
                own = {r}
                d = self.f.defaults.get(p)
                if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (
                        isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and
                        d.func.id in ("list", "dict", "set")):
                    own.add(("d", self.f.qual + ":" + p, ()))
                ty = self.f.cls if p == self.selfname else None
                self.env[p] = AV(own, (), ty=ty)
        body = self.f.node.body if not isinstance(self.f.node, ast.Lambda) else []
        self.block(body)
        ret = FRESH
        imm = True
        for r in self.rets:
            ret = ret.join(r)
        self.s.ret = AV(ret.own, ret.elem, ret.arr, ret.ty, caps=ret.caps)
        return self.s

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.stmt(st) == "dead":
                return "dead"
        return None

    def copyenv(self):
        return dict(self.env)

    def joinenv(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k].join(v) if k in out else v
        return out

    def stmt(self, st):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value)
            for tgt in st.targets:
                self.assign(tgt, v, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
            elif isinstance(st.target, ast.Name) and st.target.id not in self.env:
                self.env[st.target.id] = FRESH
        elif t is ast.AugAssign:
            self.aug(st)
        elif t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Return:
            if st.value is not None:
                self.rets.append(self.ev(st.value))
            return "dead"
        elif t is ast.Raise:
            if st.exc is not None:
                self.ev(st.exc)
            return "dead"
        elif t is ast.If:
            self.ev(st.test)
            e0 = self.copyenv()
            self.refine(st.test, True)
            d1 = self.block(st.body)
            e1 = self.env
            self.env = e0
            self.refine(st.test, False)
            d2 = self.block(st.orelse)
            if d1 == "dead" and d2 == "dead":
                return "dead"
            if d1 == "dead":
                pass
            elif d2 == "dead":
                self.env = e1
            else:
                self.env = self.joinenv(e1, self.env)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(st.iter)
            for _ in range(2):
                e0 = self.copyenv()
                self.assign_iter(st.target, it, st.iter)
                self.block(st.body)
                self.env = self.joinenv(e0, self.env)
            self.block(st.orelse)
        elif t is ast.While:
            for _ in range(2):
                self.ev(st.test)
                e0 = self.copyenv()
                self.block(st.body)
                self.env = self.joinenv(e0, self.env)
            self.block(st.orelse)
        elif t is ast.With:
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            return self.block(st.body)
        elif t is ast.Try:
            e0 = self.copyenv()
            d = self.block(st.body)
            ends = []
            if d != "dead":
                d = self.block(st.orelse)
            if d != "dead":
                ends.append(self.env)
            mid = self.joinenv(e0, self.env)
            for h in st.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = FRESH
                if self.block(h.body) != "dead":
                    ends.append(self.env)
            if ends:
                e = ends[0]
                for x in ends[1:]:
                    e = self.joinenv(e, x)
                self.env = e
            else:
                self.env = mid
            d = self.block(st.finalbody)
            if d == "dead" or not ends:
                return "dead"
        elif t is ast.Delete:
            for tgt in st.targets:
                if isinstance(tgt, ast.Subscript):
                    b = self.ev(tgt.value)
                    self.mutate(b.own, "item", tgt, "del item")
                elif isinstance(tgt, ast.Attribute):
                    b = self.ev(tgt.value)
                    self.mutate(frozenset(ext_path(r, tgt.attr) for r in b.own), "rebind", tgt,
                                "del attribute .%s" % tgt.attr)
                elif isinstance(tgt, ast.Name):
                    self.env.pop(tgt.id, None)
        elif t is ast.FunctionDef:
            # analyse nested function bodies once, in the closure environment
            save, sr = self.copyenv(), self.rets
            self.rets = []
            for a in st.args.posonlyargs + st.args.args + st.args.kwonlyargs:
                self.env[a.arg] = FRESH
            for a in (st.args.vararg, st.args.kwarg):
                if a is not None:
                    self.env[a.arg] = FRESH
            self.block(st.body)
            self.rets = sr
            self.env = save
            self.env[st.name] = FRESH
        elif t is ast.Global:
            self.globals_decl |= set(st.names)
        elif t is ast.ClassDef:
            self.env[st.name] = FRESH
        elif t in (ast.Break, ast.Continue):
            return "dead"
        elif t is ast.Assert:
            self.ev(st.test)
        elif t in (ast.Import, ast.ImportFrom):
            for a in st.names:
                nm = (a.asname or a.name).split(".")[0]
                self.env.pop(nm, None)
        return None

    def refine(self, test, truth):
        """isinstance tests on names give class information"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is)
            if isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isnone == truth:
                self.env[test.left.id] = IMM
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and truth:
            for v in test.values:
                self.refine(v, True)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not truth:
            for v in test.values:
                self.refine(v, False)
        elif truth and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id == "isinstance" and len(test.args) == 2 and \
                isinstance(test.args[0], ast.Name):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            names = [ast.unparse(t).rsplit(".", 1)[-1] for t in ts]
            if all(t in SCALAR_TYPES for t in names):
                self.env[test.args[0].id] = IMM
        elif isinstance(test, ast.Name) and not truth:
            # falsy: None / empty / 0 -- nothing worth aliasing except an empty container
            pass

    def aug(self, st):
        rv = self.ev(st.value)
        tgt = st.target
        if isinstance(tgt, ast.Name):
            n = tgt.id
            if n in self.globals_decl:
                self.mutate({("g", self.mod.name + "." + n, ())}, "rebind", st, "global %s" % n)
                return
            v = self.env.get(n)
            if v is None:
                v = self.lookup_global(n)
            if v.own and not v.imm and (v.arr or self.array_like(n, v, st)):
                self.mutate(v.own, "inplace", st, "%s=" % _op(st.op))
            if isinstance(st.op, ast.Add) and isinstance(st.value, (ast.List, ast.Name)):
                self.env[n] = AV(v.own, v.elem | rv.elem, v.arr, v.ty)
            else:
                self.env[n] = v
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value)
            self.ev(tgt.slice)
            self.mutate(b.own, "item", st, "item %s=" % _op(st.op))
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value)
            self.mutate(frozenset(ext_path(r, tgt.attr) for r in b.own), "rebind", st,
                        "attribute .%s %s=" % (tgt.attr, _op(st.op)))
            v = self.ev_attr(tgt, b)
            if v.own and (v.arr or isinstance(st.value, (ast.List, ast.ListComp))):
                self.mutate(v.own, "inplace", st, "%s= on .%s" % (_op(st.op), tgt.attr))

    def array_like(self, n, v, st):
        if isinstance(st.value, (ast.List, ast.ListComp)) and isinstance(st.op, ast.Add):
            return True
        for r in v.own:
            if r[0] == "p" and r[1] == n and not r[2]:
                if n in self.evidence:
                    d = self.f.defaults.get(n)
                    if isinstance(d, ast.Constant) and isinstance(d.value, (str, int, float, bool)):
                        continue
                    if isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                        continue
                    if isinstance(st.value, (ast.JoinedStr,)):
                        continue
                    if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                            and st.value.func.attr in ("format", "join"):
                        continue
                    if isinstance(st.value, ast.Tuple):
                        continue
                    if n in ("name", "fname", "path", "prefix", "s", "msg"):
                        continue
                    return True
        return False

    # ------------------------------------------------------------ assignment
    def assign_iter(self, tgt, it, node):
        items = it.items_of
        if isinstance(node, ast.Call) and isinstance(tgt, (ast.Tuple, ast.List)):
            nm = node.func.id if isinstance(node.func, ast.Name) else \
                getattr(node.func, "attr", "")
            if nm == "enumerate" and len(tgt.elts) == 2 and node.args:
                self.assign(tgt.elts[0], IMM, None)
                self.assign_iter(tgt.elts[1], self.ev(node.args[0]), node.args[0])
                return
            if nm in ("zip", "izip") and len(tgt.elts) == len(node.args):
                for e, a in zip(tgt.elts, node.args):
                    self.assign_iter(e, self.ev(a), a)
                return
            if nm in ("items", "iteritems") and len(tgt.elts) == 2:
                self.assign(tgt.elts[0], IMM, None)
                self.assign(tgt.elts[1], items.items_of if not items.own else items, None)
                return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                node.func.id == "range":
            items = IMM
        self.assign(tgt, items, None)

    def assign(self, tgt, v, node):
        if isinstance(tgt, ast.Name):
            if tgt.id in self.globals_decl:
                self.mutate({("g", self.mod.name + "." + tgt.id, ())}, "rebind", tgt,
                            "global %s =" % tgt.id)
                return
            self.env[tgt.id] = v
            for k in [k for k in self.env if k.startswith(tgt.id + ".")]:
                del self.env[k]
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(tgt.elts) and \
                    not any(isinstance(e, ast.Starred) for e in list(node.elts) + list(tgt.elts)):
                vals = [self.ev(e) for e in node.elts]
                for t, x, nn in zip(tgt.elts, vals, node.elts):
                    self.assign(t, x, nn)
            else:
                scal = any(isinstance(t, ast.Name) and t.id in self._int_used() for t in tgt.elts)
                for t in tgt.elts:
                    if isinstance(t, ast.Starred):
                        t = t.value
                    w = IMM if scal else v.items_of
                    self.assign(t, AV(w.own, w.elem, imm=v.imm, arr=v.arr), None)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value)
            self.ev(tgt.slice)
            self.mutate(b.own, "item", tgt, "item assignment")
            # container now holds v
            if v.roots and isinstance(tgt.value, ast.Name) and tgt.value.id in self.env \
                    and not self.numeric_store(tgt, node):
                o = self.env[tgt.value.id]
                self.env[tgt.value.id] = AV(o.own, o.elem | v.boxed, o.arr, o.ty, caps=o.caps)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value)
            setter = None
            if b.ty is not None:
                setter = b.ty.find_setter(tgt.attr)
            roots = frozenset(ext_path(r, tgt.attr) for r in b.own)
            self.mutate(roots, "rebind", tgt, "assignment to .%s" % tgt.attr)
            if setter is not None and setter.qual in self.eff.sum:
                self.apply(setter, [b, v], {}, tgt, [None, node])
            if isinstance(tgt.value, ast.Name):
                self.env[tgt.value.id + "." + tgt.attr] = v
                if tgt.value.id == self.selfname and self.f.cls is not None:
                    ps = {r[1] for r in v.own if r[0] == "p" and not r[2] and
                          r[1] != self.selfname}
                    if ps:
                        self.s.captures[tgt.attr] = \
                            self.s.captures.get(tgt.attr, frozenset()) | frozenset(ps)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, None)

    def _int_used(self):
        """names converted with int(): they and the values unpacked next to them are numbers"""
        if not hasattr(self, "_intn"):
            self._intn = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == "int" and len(n.args) == 1 and \
                        isinstance(n.args[0], ast.Name):
                    self._intn.add(n.args[0].id)
        return self._intn

    def numeric_store(self, tgt, node):
        # arr[...] = x copies x; d[key] = x keeps a reference.  Slices / tuples
        # of indices mean an array store.
        sl = tgt.slice
        if isinstance(sl, (ast.Slice, ast.Tuple)):
            return True
        if isinstance(sl, ast.Constant) and sl.value is Ellipsis:
            return True
        return False

    # -------------------------------------------------------------- mutation
    def mutate(self, roots, kind, node, how, chain=()):
        for r in roots:
            if r[0] == "lost":
                continue
            k = (r, kind)
            if k not in self.s.mut:
                self.s.mut[k] = Mutation(r, kind, "%s:%d" % (self.mod.rel,
                                                             getattr(node, "lineno", 0)),
                                         chain, how)

    # ------------------------------------------------------------ expressions
    def lookup_global(self, n):
        r = self.p.resolve_name(self.mod, n)
        if isinstance(r, tuple) and r[0] == "global":
            vals = r[1].globals.get(r[2]) or []
            for v in vals:
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
                        (isinstance(v, ast.Call)):
                    root = ("g", r[1].name + "." + r[2], ())
                    return AV({root})
            root = ("g", r[1].name + "." + r[2], ())
            return AV({root})
        return FRESH

    def ev(self, e):
        if e is None:
            return IMM
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return FRESH
        return m(e)

    def x_Constant(self, e):
        return IMM

    def x_JoinedStr(self, e):
        return IMM

    def x_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        return self.lookup_global(e.id)

    def x_Tuple(self, e):
        el = frozenset()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                el |= self.ev(x.value).elem
            else:
                el |= self.ev(x).boxed
        return AV((), el)
    x_List = x_Set = x_Tuple

    def x_Dict(self, e):
        el = frozenset()
        for k, v in zip(e.keys, e.values):
            if k is None:
                el |= self.ev(v).elem
            else:
                self.ev(k)
                el |= self.ev(v).boxed
        return AV((), el)

    def x_Starred(self, e):
        return self.ev(e.value).items_of

    def x_IfExp(self, e):
        self.ev(e.test)
        e0 = self.copyenv()
        self.refine(e.test, True)
        a = self.ev(e.body)
        self.env = dict(e0)
        self.refine(e.test, False)
        b = self.ev(e.orelse)
        self.env = e0
        return a.join(b)

    def x_BoolOp(self, e):
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            v = v.join(self.ev(x))
        return v

    def x_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        if isinstance(e.op, ast.Add) and (isinstance(e.left, (ast.List, ast.Tuple)) or
                                          isinstance(e.right, (ast.List, ast.Tuple))):
            return AV((), a.elem | b.elem)
        return FRESH

    def x_UnaryOp(self, e):
        self.ev(e.operand)
        return FRESH

    def x_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return FRESH

    def x_Lambda(self, e):
        return FRESH

    def x_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return IMM

    def _comp(self, e, elts):
        save = self.copyenv()
        for g in e.generators:
            it = self.ev(g.iter)
            self.assign_iter(g.target, it, g.iter)
            for c in g.ifs:
                self.ev(c)
        el = frozenset()
        for x in elts:
            el |= self.ev(x).boxed
        self.env = save
        return AV((), el)

    def x_ListComp(self, e):
        return self._comp(e, [e.elt])
    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self._comp(e, [e.value])

    def x_Yield(self, e):
        if e.value is not None:
            v = self.ev(e.value)
            self.rets.append(AV((), v.boxed))
        return FRESH

    def x_YieldFrom(self, e):
        v = self.ev(e.value)
        self.rets.append(v)
        return FRESH

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def x_Subscript(self, e):
        b = self.ev(e.value)
        self.ev(e.slice)
        if self.copy_index(e.slice):
            return FRESH
        arr = b.arr or isinstance(e.slice, (ast.Slice,)) or (
            isinstance(e.slice, ast.Tuple) and
            any(isinstance(x, ast.Slice) for x in e.slice.elts))
        if isinstance(e.slice, ast.Slice) and not b.own:
            return AV((), b.elem, False)      # slice of fresh list
        scalar_ix = isinstance(e.slice, ast.Tuple) and \
            all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in e.slice.elts)
        if isinstance(e.slice, ast.Slice):
            return AV(b.own, b.elem, arr)
        it = b.items_of
        return AV(it.own, it.elem, arr and not scalar_ix)

    def copy_index(self, s):
        """advanced (copying) indexing"""
        if isinstance(s, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(s, ast.Tuple):
            return any(self.copy_index(x) for x in s.elts)
        if isinstance(s, ast.Name):
            t = self.env.get("#ix:" + s.id)
            return self._is_index_array(s.id)
        if isinstance(s, ast.Call):
            nm = ast.unparse(s.func)
            return nm.rsplit(".", 1)[-1] in ("where", "argsort", "flatnonzero", "nonzero",
                                             "isfinite", "isnan", "logical_and", "logical_or",
                                             "logical_not")
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return True
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
            return True
        return False

    def _is_index_array(self, name):
        if not hasattr(self, "_ixnames"):
            self._ixnames = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Assign):
                    v = n.value
                    good = isinstance(v, (ast.Compare, ast.ListComp)) or (
                        isinstance(v, ast.List)) or (
                        isinstance(v, ast.BinOp) and isinstance(v.op, (ast.BitAnd, ast.BitOr))) or (
                        isinstance(v, ast.Call) and
                        ast.unparse(v.func).rsplit(".", 1)[-1] in
                        ("where", "argsort", "flatnonzero", "nonzero", "isfinite", "isnan",
                         "logical_and", "logical_or", "logical_not", "arange", "all", "any",
                         "isclose", "argmin", "argmax"))
                    if good:
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                self._ixnames.add(t.id)
        return name in self._ixnames

    def x_Attribute(self, e):
        # module attribute / class attribute
        if isinstance(e.value, ast.Name) and e.value.id not in self.env:
            r = self.p.resolve_expr(self.mod, e)
            if isinstance(r, tuple) and r[0] == "global":
                root = ("g", r[1].name + "." + r[2], ())
                return AV({root})
            b = self.p.resolve_expr(self.mod, e.value)
            if isinstance(b, Cls):
                c, _ = b.find_attr(e.attr)
                if c is not None:
                    root = ("c", c.qual + "." + e.attr, ())
                    return AV({root})
                return FRESH
            if isinstance(b, (Mod,)) or (isinstance(b, tuple) and b[0] == "ext"):
                return FRESH
        return self.ev_attr(e, self.ev(e.value))

    def ev_attr(self, e, b):
        a = e.attr
        if isinstance(e.value, ast.Name):
            k = e.value.id + "." + a
            if k in self.env:
                return self.env[k]
        if a in ("T", "flat", "real", "imag", "base"):
            return AV(b.own, b.elem, True)
        if a in ("shape", "ndim", "size", "dtype", "nbytes", "itemsize", "__name__",
                 "__class__", "__doc__", "strides"):
            if b.ty is None or b.ty.find(a) is None:
                return IMM
        cand = None
        if b.ty is not None:
            m = b.ty.find(a)
            if m is not None:
                cand = [m]
                for s in self.p.subclasses(b.ty):
                    if a in s.methods and s.methods[a] not in cand:
                        cand.append(s.methods[a])
            else:
                c, val = b.ty.find_attr(a)
                it = b.items_of.join(b.cap(a))
                out = AV({ext_path(r, a) for r in b.own} | (it.own - b.own), it.elem)
                if c is not None and isinstance(val, (ast.List, ast.Dict, ast.Set, ast.Call)) \
                        and not self._instance_sets(b.ty, a):
                    root = ("c", c.qual + "." + a, ())
                    return AV(out.own | {root}, out.elem)
                return out
        elif a in self.eff.props and a not in self.eff.plain:
            cand = self.eff.props[a]
        if cand:
            out = None
            for m in cand:
                if m.is_property:
                    v = self.apply(m, [b], {}, e, [None], True)
                    out = v if out is None else out.join(v)
            if out is not None:
                return out
            return AV(b.own)     # bound method
        it = b.items_of.join(b.cap(a))
        own = frozenset(ext_path(r, a) for r in b.own) | (it.own - b.own)
        return AV(own, it.elem)

    def _instance_sets(self, c, attr):
        for k in c.mro():
            init = k.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and \
                        isinstance(n.ctx, ast.Store):
                    return True
        return False

    # ---------------------------------------------------------------- calls
    def x_Call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw["**"] = v
            else:
                kw[k.arg] = v
        argn = list(e.args)
        # out= keyword always writes
        if "out" in kw:
            tgt = None
            if self._is_ext(fn) or isinstance(fn, ast.Attribute):
                r0 = self._resolve(fn)
                if not isinstance(r0, (Func, Cls)):
                    self.mutate(kw["out"].own, "inplace", e, "out=")
        r = self._resolve(fn)
        if isinstance(r, Func):
            if r.cls is not None and isinstance(fn, ast.Attribute) and not r.is_static and \
                    not r.is_classmethod:
                # Class.method(self, ...)
                return self.apply(r, args, kw, e, argn)
            if r.is_classmethod:
                return self.apply(r, [FRESH] + args, kw, e, [None] + argn)
            return self.apply(r, args, kw, e, argn)
        if isinstance(r, Cls):
            return self.construct(r, args, kw, e, argn)
        if isinstance(r, tuple) and r[0] == "ext":
            return self.ext_call(r[1], args, kw, e)
        if isinstance(fn, ast.Name):
            n = fn.id
            if n in self.env and not self.env[n].own:
                return self.unknown(args, kw)
            if n in IMMUT_CALLS:
                return IMM
            return self.ext_call(n, args, kw, e)
        if isinstance(fn, ast.Attribute):
            return self.method_call(fn, args, kw, e, argn)
        self.ev(fn)
        return FRESH

    def unknown(self, args, kw):
        return AV((), ())

    def _is_ext(self, fn):
        r = self._resolve(fn)
        return isinstance(r, tuple) and r[0] == "ext"

    def _resolve(self, fn):
        if isinstance(fn, ast.Name):
            if fn.id in self.env:
                return None
            if fn.id in self.f.nested:
                return None
            return self._res_local_import(fn.id) or self.p.resolve_name(self.mod, fn.id)
        if isinstance(fn, ast.Attribute):
            b = fn
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id not in self.env:
                li = self._res_local_import(b.id)
                if li is not None and not isinstance(li, tuple):
                    parts = []
                    q = fn
                    while isinstance(q, ast.Attribute):
                        parts.append(q.attr)
                        q = q.value
                    cur = li
                    for a in reversed(parts):
                        if isinstance(cur, Mod):
                            cur = self.p.resolve_name(cur, a)
                        elif isinstance(cur, Cls):
                            cur = cur.find(a)
                        else:
                            return None
                    return cur
                return self.p.resolve_expr(self.mod, fn)
        return None

    def _res_local_import(self, name):
        if not hasattr(self, "_limps"):
            self._limps = {}
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.ImportFrom):
                    base = self.p._relmod(self.mod, n)
                    for a in n.names:
                        self._limps[a.asname or a.name] = (base, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self._limps[a.asname or a.name.split(".")[0]] = \
                            (a.name if a.asname else a.name.split(".")[0], None)
        if name not in self._limps:
            return None
        base, nm = self._limps[name]
        if nm is None:
            return self.p.mods.get(base) or ("ext", base)
        bm = self.p.mods.get(base)
        if bm is not None:
            r = self.p.resolve_name(bm, nm)
            if r is not None:
                return r
        return self.p.mods.get(base + "." + nm) or ("ext", base + "." + nm)

    def bind(self, callee, args, kw, argn):
        """param name -> AV"""
        out = {}
        ps = list(callee.params)
        i = 0
        extra = frozenset()
        star = False
        pos = []
        for a, node in zip(args, argn):
            if isinstance(node, ast.Starred):
                nm = node.value.id if isinstance(node.value, ast.Name) else None
                if nm is not None and nm == self.f.vararg:
                    # f(*args) forwarding: keep the position of each argument
                    for j, q in enumerate(ps[i:]):
                        if q not in kw:
                            out.setdefault(q, AV({("p", nm, ("*%d" % j,))}))
                else:
                    for q in ps[i:]:
                        if q not in kw:
                            out.setdefault(q, a)
                extra |= a.boxed
                i = len(ps)
                star = True
                continue
            if i < len(ps):
                out[ps[i]] = a
                i += 1
            else:
                extra |= a.boxed
                pos.append(a)
        if not star:
            out["*pos"] = pos
        kwx = frozenset()
        for k, v in kw.items():
            if k == "**":
                kwx |= v.elem
                for q in ps:
                    if q not in out and v.elem:
                        out[q] = v.items_of
            elif k in ps:
                out[k] = v
            else:
                kwx |= v.boxed
        if callee.vararg:
            out[callee.vararg] = AV((), extra)
        if callee.kwarg:
            out[callee.kwarg] = AV((), kwx)
        return out

    def translate(self, root, b, callee, kind="alias"):
        """callee root -> set of caller roots"""
        k, n, path = root
        if k != "p":
            return {root}
        v = b.get(n)
        if v is None:
            return set()
        out = set()
        if n == callee.vararg and path and path[0][:1] == "*" and "*pos" in b:
            j = int(path[0][1:])
            if j >= len(b["*pos"]):
                return set()
            v = b["*pos"][j]
            path = path[1:]
            base = v.own
            captured = (v.items_of.own - v.own) | v.cap(path[0]).own if path else frozenset()
        elif n in (callee.vararg, callee.kwarg):
            base = v.items_of.own
            captured = frozenset()
            if path and path[0][:1] == "*":
                path = path[1:]
        else:
            base = v.own
            captured = (v.items_of.own - v.own) | v.cap(path[0]).own if path else frozenset()
        for r in base:
            q = r
            for a in path:
                q = ext_path(q, a)
            out.add(q)
        if kind != "rebind":
            # in-place change of an attribute of an object that captured a caller value
            for r in captured:
                q = r
                for a in path[1:]:
                    q = ext_path(q, a)
                out.add(q)
        return out

    def apply(self, callee, args, kw, node, argn, quiet=False):
        s = self.eff.sum.get(callee.qual)
        if s is None:
            return FRESH
        b = self.bind(callee, args, kw, argn)
        muts = {} if quiet or callee.qual in self.eff.lazy else s.mut
        for (root, kind), m in muts.items():
            if root[0] == "p" and b.get(root[1]) is not None and b[root[1]].imm:
                continue
            for r in self.translate(root, b, callee, kind):
                self.mutate([r], kind, node, m.how,
                            (("%s (%s)" % (callee.qual, m.loc)),) + m.chain[:3])
        own, elem = set(), set()
        for r in s.ret.own:
            own |= self.translate(r, b, callee)
            if r[0] == "p" and not r[2] and r[1] in b:
                elem |= b[r[1]].elem
        for r, d in s.ret.elem:
            for q in self.translate(r, b, callee):
                elem.add((q, d))
            if r[0] == "p" and not r[2] and r[1] in b:
                for q, d2 in b[r[1]].elem:
                    elem.add((q, min(d + d2, MAXD)))
        caps = set()
        for a, r, d in s.ret.caps:
            for q in self.translate(r, b, callee):
                caps.add((a, q, d))
        for r in s.ret.own:
            if r[0] == "p" and not r[2] and r[1] in b:
                caps |= b[r[1]].caps
        return AV(own, elem, s.ret.arr, s.ret.ty, caps=caps)

    def construct(self, c, args, kw, node, argn):
        init = c.find("__init__")
        capt = set()
        if init is not None and init.qual in self.eff.sum:
            obj = AV((), (), ty=c)
            self.apply(init, [obj] + args, kw, node, [None] + argn)
            b = self.bind(init, [obj] + args, kw, [None] + argn)
            caps = self.eff.sum[init.qual].captures
            for attr, ps in caps.items():
                for p in ps:
                    if p in b:
                        capt |= {(attr, r, 0) for r in b[p].own}
                        capt |= {(attr, r, d) for r, d in b[p].elem}
                        capt |= {(attr, r, min(d + 1, MAXD)) for _, r, d in b[p].caps}
        return AV((), (), ty=c, caps=capt)

    def ext_call(self, name, args, kw, e):
        if name.startswith("np."):
            name = "numpy." + name[3:]
        a0 = args[0] if args else FRESH
        if name == "numpy.array":
            c = [k for k in e.keywords if k.arg == "copy"]
            if c and isinstance(c[0].value, ast.Constant) and c[0].value.value is False:
                return AV(a0.own, a0.elem, True)
            return AV(arr=True)
        if name in ALIAS0:
            return AV(a0.own, a0.elem, True)
        if name in ELEM0:
            return AV((), a0.elem)
        if name in PASS_ITER:
            el = frozenset()
            for a in args:
                el |= a.elem | frozenset((r, 1) for r in a.own)
            if name in ("zip", "enumerate", "izip"):
                el = frozenset((r, min(d + 1, MAXD)) for r, d in el)
            v = AV((), el)
            return v.items_of if name in ("next", "min", "max") else v
        if name in MUT0:
            self.mutate(a0.own, "item", e, name)
            return FRESH
        if name == "getattr" and len(args) >= 2:
            own = frozenset(a0.own)
            it = a0.items_of
            nm = e.args[1]
            if isinstance(nm, ast.Constant) and isinstance(nm.value, str):
                own = frozenset(ext_path(r, nm.value) for r in a0.own)
            return AV(own | (it.own - a0.own), it.elem)
        if name.startswith("numpy."):
            short = name.split(".")[-1]
            pos = None
            if name.count(".") == 1:
                if short in BIN_UFUNC:
                    pos = 2
                elif short in UN_UFUNC:
                    pos = 1
                elif short == "clip":
                    pos = 3
            if pos is not None and len(args) > pos:
                self.mutate(args[pos].own, "inplace", e, "%s(..., out)" % name)
            if short == "nan_to_num":
                c = [k for k in e.keywords if k.arg == "copy"]
                if c and isinstance(c[0].value, ast.Constant) and c[0].value.value is False:
                    self.mutate(a0.own, "inplace", e, "nan_to_num(copy=False)")
                    return AV(a0.own, a0.elem, True)
            return AV(arr=True)
        if name in ("__addr__", "__cast__"):
            return args[-1]
        if name in ("copy.copy",):
            return AV((), a0.elem)
        return FRESH

    def method_call(self, fn, args, kw, e, argn):
        a = fn.attr
        # super().m(...)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and \
                fn.value.func.id == "super" and self.f.cls is not None:
            for c in self.f.cls.mro()[1:]:
                if a in c.methods:
                    sv = self.env.get(self.selfname, FRESH)
                    v = self.apply(c.methods[a], [sv] + args, kw, e, [None] + argn)
                    if a == "__init__":
                        b = self.bind(c.methods[a], [sv] + args, kw, [None] + argn)
                        caps = self.eff.sum[c.methods[a].qual].captures \
                            if c.methods[a].qual in self.eff.sum else {}
                        for attr, ps in caps.items():
                            for p in ps:
                                for r in (b[p].own if p in b else ()):
                                    if r[0] == "p" and not r[2] and r[1] != self.selfname:
                                        self.s.captures[attr] = self.s.captures.get(
                                            attr, frozenset()) | {r[1]}
                    return v
            if a in METH_MUT and self.selfname:
                self.mutate(self.env[self.selfname].own, "item", e, "super().%s" % a)
            return FRESH
        b = self.ev(fn.value)
        if isinstance(fn.value, ast.Attribute) or isinstance(fn.value, ast.Name):
            pass
        cands = []
        if b.ty is not None:
            m = b.ty.find(a)
            if m is not None:
                cands = [m]
                if not (isinstance(fn.value, ast.Name) and fn.value.id != self.selfname):
                    for s in self.p.subclasses(b.ty):
                        if a in s.methods and s.methods[a] not in cands:
                            cands.append(s.methods[a])
        if not cands and b.ty is None:
            if a in METH_MUT:
                if a == "pop" and not b.own:
                    return b.items_of
                if a == "partition":
                    return FRESH
                if not b.imm:
                    self.mutate(b.own, "item", e, ".%s()" % a)
                if a in ("setdefault", "pop", "popitem"):
                    out = b.items_of
                    for x in args[1:]:
                        out = out.join(x)
                    return out
                if a in ("append", "extend", "insert", "add", "update") and \
                        isinstance(fn.value, ast.Name) and fn.value.id in self.env:
                    ext = frozenset()
                    for x in args:
                        ext |= x.boxed if a in ("append", "insert", "add") else x.elem
                    o = self.env[fn.value.id]
                    self.env[fn.value.id] = AV(o.own, o.elem | ext, o.arr, o.ty, caps=o.caps)
                return FRESH
            if a == "astype":
                c = kw.get("copy")
                ck = [k for k in e.keywords if k.arg == "copy"]
                if ck and isinstance(ck[0].value, ast.Constant) and ck[0].value.value is False:
                    return AV(b.own, b.elem, True)
                return AV(arr=True)
            if a in METH_FRESH:
                return AV(arr=a in ("copy", "flatten"))
            if a == "byteswap" and args:
                self.mutate(b.own, "inplace", e, ".byteswap(inplace)")
            if a in METH_ALIAS:
                repo = [m for m in self.p.by_method(a)]
                if a in ("get", "__getitem__", "setdefault"):
                    out = b.items_of
                    for x in args[1:]:
                        out = out.join(x)
                    return AV(out.own, out.elem)
                if a in ("items", "values", "iteritems", "itervalues"):
                    el = frozenset((r, 1) for r in b.own) | b.elem
                    if a.endswith("items"):
                        el = frozenset((r, min(d + 1, MAXD)) for r, d in el)
                    return AV((), el)
                return AV(b.own, b.elem, True)
            cands = [m for m in self.p.by_method(a)
                     if not m.mod.name.startswith("viscid.compat")]
            if len(cands) > 14:
                cands = []
        out = None
        cha = b.ty is None
        if cha and is_mutator_name(a) and cands:
            own = b.own
            if a in ("set_info", "update_info"):
                own = frozenset(ext_path(r, "_info") for r in own)
            self.mutate(own, "item", e, ".%s()" % a)
        for m in cands:
            if m.is_property:
                continue
            if m.is_static:
                v = self.apply(m, args, kw, e, argn, cha)
            elif m.is_classmethod:
                v = self.apply(m, [FRESH] + args, kw, e, [None] + argn, cha)
            else:
                v = self.apply(m, [b] + args, kw, e, [None] + argn, cha)
            out = v if out is None else out.join(v)
        if out is None:
            # unknown method of an unknown object
            return FRESH
        return out


def _op(o):
    return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%",
            "Pow": "**", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<",
            "RShift": ">>", "MatMult": "@"}.get(type(o).__name__, "?")
