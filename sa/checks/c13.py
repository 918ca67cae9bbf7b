"""Value numbering of the numeric protocol of Field and AMRField (viscid/field.py, amr_field.py):
every operator, in both operand orders and for every kind of partner, must give the elementwise
operation on the data, on the operand's grid, and leave the operands alone."""
from __future__ import annotations
import itertools
from .. import alg
from ..alg import P, B, var
from ..interp import A, Obj, symarr, arr, binop, compare, Unsupp, Raised
from ..vn import VN, differ
from .c14 import HOOKS, NS, crds, shape

M = "viscid.field"
SRC = '''
def probe(cc, da, db, p, arr):
    crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", [("x", cc[0]), ("y", cc[1]), ("z", cc[2])])
    def mk(d, n):
        return wrap_field(d[0], crds, name=n, center="%(center)s", fldtype=d[1], layout=d[2], time=3.0)
    f = mk(da, "A")
    g = mk(db, "B")
    r = %(expr)s
    out = []
    for q in (r, f, g):
        if isinstance(q, Field):
            out.append([q.data, q.center, q.get_crds_nc(), q.nr_comps, q.layout, q.time, q.get_crds_cc()])
        else:
            out.append([q])
    return out
'''
AMR = '''
def probe(cc, das, dbs, p):
    fs = []
    gs = []
    for c, a, b in zip(cc, das, dbs):
        crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", [("x", c[0]), ("y", c[1]), ("z", c[2])])
        fs.append(viscid.field.wrap_field(a, crds, name="A", center="cell"))
        gs.append(viscid.field.wrap_field(b, crds, name="B", center="cell"))
    f = AMRField(fs, None)
    g = AMRField(gs, None)
    h = AMRField(gs[:1], None)
    r = %(expr)s
    if not isinstance(r, AMRField):
        return None, r
    return [[q.data, q.center, q.get_crds_nc()] for q in r.patches], r.skeleton
'''
NP_ = 4
DUN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow"}
BIN = ("+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "<<", ">>")
CMP = ("<", "<=", ">", ">=", "==", "!=")
NP = {"+": "add", "-": "subtract", "*": "multiply", "/": "true_divide", "**": "power"}


def op(o, x, y):
    return binop(o, x, y) if o in BIN else compare(o, x, y)


def each(f, *xs):
    """elementwise on data arrays"""
    import numpy as np
    xs = [x.a if isinstance(x, A) else x for x in xs]
    n = next(x for x in xs if isinstance(x, np.ndarray))
    out = np.empty(np.broadcast_shapes(*[x.shape for x in xs if isinstance(x, np.ndarray)]), dtype=object)
    bs = [np.broadcast_to(x, out.shape) if isinstance(x, np.ndarray) else x for x in xs]
    for i in np.ndindex(out.shape):
        out[i] = f(*[b[i] if isinstance(b, np.ndarray) else b for b in bs])
    return A(out)


def run(ctx):
    ctx.rule("binary", "f op g is the elementwise operation in that operand order, for fields, numbers and arrays")
    ctx.rule("unary", "negation, absolute value and numpy functions act elementwise")
    ctx.rule("inplace", "an augmented assignment binds a new field and changes neither operand")
    ctx.rule("reduction", "a reduction combines exactly the values along its axes and keeps the other coordinates")
    ctx.rule("amr", "operators on AMR fields act patch by patch with the matching patch")
    vn = VN(ctx, 4000000)
    cc = crds()

    def call(src, expr, center, *args):
        it = vn.interp(dict(HOOKS), None)
        r = it.probe(M if src is SRC else "viscid.amr_field", src % dict(expr=expr, center=center), list(args))
        vn.reached |= it.calls
        return r

    def case(rule, name, center, lay, expr, want, vec=True, mix=False, check=None):
        S = shape(center)
        sh = ((3,) + S if lay == "flat" else S + (3,)) if vec else S
        a, b = symarr("a", sh), symarr("b", sh if not mix else S)
        c = symarr("c", sh)
        p = var("p")
        da = (a, "vector" if vec else "scalar", lay)
        db = (b, "vector" if vec and not mix else "scalar", lay)

        def thunk():
            r, f, g = call(SRC, expr, center, cc, da, db, p, c)
            w = want(a, b, p, c)
            for nm, x, d in (("left", f, a), ("right", g, b)):
                m = differ(x[0], d, "the %s operand was changed: " % nm)
                if m:
                    return m
            if check:
                return check(r, w)
            if len(r) == 1:
                return "the result is not a field"
            m = differ(r[0], w, "value ")
            if m:
                return m
            if r[1].lower() != center:
                return "the result is %s centered" % r[1]
            for ax, (x, y) in enumerate(zip(r[2], cc)):
                m = differ(x, y, "coordinate %s: " % "xyz"[ax])
                if m:
                    return m
            if (r[3] or 0) != (3 if vec else 0):
                return "the result has %s components" % r[3]
            if vec and r[4] != lay:
                return "the layout changed to %s" % r[4]
            return differ(r[5], P.of(3), "time ")
        vn.defer(rule, "%s/%s %s%s" % (name, center, lay if vec else "scalar", " by scalar" if mix else ""),
                 M + ".Field.__add__", thunk)

    kinds = (("node", "flat", True), ("cell", "flat", False), ("cell", "interlaced", True))
    for center, lay, vec in kinds:
        for o in BIN + CMP:
            case("binary", "f %s g" % o, center, lay, "f %s g" % o, lambda a, b, p, c, o=o: each(lambda x, y: op(o, x, y), a, b), vec)
            case("binary", "f %s p" % o, center, lay, "f %s p" % o, lambda a, b, p, c, o=o: each(lambda x: op(o, x, p), a), vec)
            case("binary", "f %s array" % o, center, lay, "f %s arr" % o,
                 lambda a, b, p, c, o=o: each(lambda x, y: op(o, x, y), a, c), vec)
            if o not in ("&", "|", "^", "<<", ">>") and o in BIN:
                case("binary", "p %s f" % o, center, lay, "p %s f" % o,
                     lambda a, b, p, c, o=o: each(lambda x: op(o, p, x), a), vec)
                for w, q in (("arr", "c"), ("p", "p"), ("g", "b")):
                    case("binary", "f.__r%s__(%s)" % (DUN[o], w), center, lay, "f.__r%s__(%s)" % (DUN[o], w),
                         lambda a, b, p, c, o=o, q=q: each(lambda x, y: op(o, y, x), a, dict(b=b, p=p, c=c)[q]), vec)
                case("binary", "array %s f" % o, center, lay, "arr %s f" % o,
                     lambda a, b, p, c, o=o: each(lambda x, y: op(o, y, x), a, c), vec)
        for o, u in NP.items():
            case("binary", "np.%s" % u, center, lay, "np.%s(f, g)" % u,
                 lambda a, b, p, c, o=o: each(lambda x, y: op(o, x, y), a, b), vec)
        for ex, w in (("-f", lambda x: -P.of(x)), ("+f", lambda x: x), ("abs(f)", alg.fabs), ("np.abs(f)", alg.fabs),
                      ("np.sqrt(f)", lambda x: alg.sqrt(P.of(x))), ("np.exp(f)", lambda x: alg.fn("exp", (P.of(x),)))):
            case("unary", ex, center, lay, ex, lambda a, b, p, c, w=w: each(w, a), vec)
        # vector by scalar field needs numpy broadcasting, which is the flat layout's
        if vec and lay == "flat":
            for o in ("+", "-", "*", "/"):
                case("binary", "f %s g" % o, center, lay, "f %s g" % o,
                     lambda a, b, p, c, o=o: each(lambda x, y: op(o, x, y), a, b), vec, True)
    inplace(case)
    reductions(case)
    amr(vn, call)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


def inplace(case):
    for o in ("+", "-", "*", "/", "//", "%", "**"):
        case("inplace", "f %s= g" % o, "node", "flat", "f\n    r %s= g" % o,
             lambda a, b, p, c, o=o: each(lambda x, y: op(o, x, y), a, b))
        case("inplace", "f %s= p" % o, "cell", "flat", "f\n    r %s= p" % o,
             lambda a, b, p, c, o=o: each(lambda x: op(o, x, p), a), False)


def reductions(case):
    import numpy as np
    for center, lay, vec in (("node", "flat", True), ("cell", "interlaced", True), ("cell", "flat", False)):
        S = shape(center)
        nd = 4 if vec else 3
        comp = None if not vec else 0 if lay == "flat" else 3
        for ax in list(range(nd)) + [-1]:
            for keep in (None, True, False):
                for nm in ("sum", "mean"):
                    axp = ax % nd
                    sp = None if axp == comp else axp - (1 if comp is not None and axp > comp else 0)
                    kw = "" if keep is None else ", keepdims=%s" % keep

                    def want(a, b, p, c, axp=axp, nm=nm):
                        r = np.add.reduce(a.a, axis=axp)
                        n = a.a.shape[axp]
                        return each(lambda x: P.of(x) / n if nm == "mean" else P.of(x), A(r))

                    def check(r, w, sp=sp, keep=keep, center=center):
                        if len(r) == 1:
                            return "the result is not a field"
                        got = [P.of(x) for x in r[0].a.reshape(-1)]
                        ws = [P.of(x) for x in w.a.reshape(-1)]
                        m = differ(got, ws, "value ")
                        if m:
                            return m
                        full = crds() if center == "node" else [arr([(u + v) / 2 for u, v in zip(c.a, c.a[1:])]) for c in crds()]
                        left = [c for i, c in enumerate(full) if i != sp]
                        have = r[2] if center == "node" else r[6]
                        rest = list(have)
                        if len(have) == len(full) and sp is not None:
                            rest = [c for i, c in enumerate(have) if i != sp]
                            if have[sp].a.size != 1:
                                return "the reduced axis keeps %d points" % have[sp].a.size
                        return differ(rest, left, "coordinates ")
                    case("reduction", "%s axis=%d%s" % (nm, ax, kw), center, lay, "f.%s(axis=%d%s)" % (nm, ax, kw), want, vec,
                         check=check)


def amr(vn, call):
    n = (3, 3, 4)
    cc = [[symarr("%s%d" % (x, i), (m,)) for x, m in zip("xyz", n)] for i in range(NP_)]
    sh = tuple(m - 1 for m in n)
    a = [symarr("a%d" % i, sh) for i in range(NP_)]
    b = [symarr("b%d" % i, sh) for i in range(NP_)]
    p = var("p")

    def case(name, expr, want, one=False):
        def thunk():
            got, skel = call(AMR, expr, "cell", cc, a, b, p)
            if got is None:
                return "the result is not an AMR field"
            if len(got) != NP_:
                return "%d patches instead of %d" % (len(got), NP_)
            for i in range(NP_):
                m = differ(got[i][0], want(a[i], b[0 if one else i]), "patch %d " % i) or \
                    differ(got[i][2], cc[i], "patch %d coordinates " % i)
                if m:
                    return m
            return None
        vn.defer("amr", name, "viscid.amr_field.AMRField.__add__", thunk)
    for o in BIN + CMP:
        case("f %s g" % o, "f %s g" % o, lambda x, y, o=o: each(lambda u, v: op(o, u, v), x, y))
        case("f %s one patch" % o, "f %s h" % o, lambda x, y, o=o: each(lambda u, v: op(o, u, v), x, y), True)
        case("f %s p" % o, "f %s p" % o, lambda x, y, o=o: each(lambda u: op(o, u, p), x))
        if o in ("+", "-", "*", "/", "//", "%", "**"):
            case("p %s f" % o, "p %s f" % o, lambda x, y, o=o: each(lambda u: op(o, p, u), x))
    for ex, w in (("-f", lambda x: -P.of(x)), ("abs(f)", alg.fabs), ("np.sqrt(f)", lambda x: alg.sqrt(P.of(x))),
                  ("np.add(f, g)", None)):
        case(ex, ex, (lambda x, y, w=w: each(w, x)) if w else (lambda x, y: each(lambda u, v: binop("+", u, v), x, y)))

    def red(name, want):
        def thunk():
            got, r = call(AMR, "f.%s()" % name, "cell", cc, a, b, p)
            if got is not None:
                return "the result is not a number"
            return differ(r, want([P.of(v) for q in a for v in q.a.reshape(-1)]), "value ")
        vn.defer("amr", "f.%s()" % name, "viscid.amr_field.AMRField.sum", thunk)
    red("sum", lambda v: sum(v, P.of(0)))
    red("mean", lambda v: sum(v, P.of(0)) / len(v))
