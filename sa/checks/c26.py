"""Value numbering of datasets over time (viscid/dataset.py): frames of symbols are added in any
order; each way to ask for a time must give the frames whose times the selection names, in
increasing time (or the order of the selection), whatever level of the tree is asked."""
from __future__ import annotations
import itertools
from ..alg import P, var
from ..interp import A, Obj, symarr, Raised
from ..vn import VN, Order, differ
from .c14 import HOOKS, crds as mkcrds

M = "viscid.dataset"
Q = M + ".DatasetTemporal."
SRC = '''
def probe(frames, cc, sel, kw, how):
    def frame(name, t, d, cc, log):
        g = Grid(name=name)
        g.time = t
        g.set_info("mine", name)
        crds = viscid.wrap_crds("nonuniform_cartesian", cc)
        g.set_crds(crds)
        g.add_field(viscid.wrap_field(d, crds, name="p", center="node", time=None))
        log.append(name)
        return g

    def answer(r):
        """names of the frames and their values"""
        if r is None:
            return None
        if isinstance(r, viscid.field.Field):
            return [r.find_info("mine"), r.data]
        if isinstance(r, Grid):
            return [r.find_info("mine"), r["p"].data]
        if isinstance(r, DeferredChild):
            return answer(r.resolve())
        return [answer(q) for q in r]
    log = []
    ds = DatasetTemporal(name="series")
    ds.set_info("ours", "series")
    for name, t, d in frames:
        if how["deferred"]:
            ds.add_deferred(t, frame, callback_args=(name, t, d), callback_kwargs={"cc": cc, "log": log})
        else:
            ds.add(frame(name, t, d, cc, log))
    for _ in range(how["depth"]):
        outer = Dataset(name="outer")
        if how["others"]:
            outer.add(Dataset(name="empty"))
            outer.add(Grid(name="static"))
        outer.add(ds)
        ds = outer
    return %(expr)s
'''


def by_value(ts, lo, hi, step):
    """indices of the times from lo to hi, both included, in the direction of step"""
    if (step or 1) > 0:
        inside = [i for i, t in enumerate(ts) if (lo is None or t >= lo) and (hi is None or t <= hi)]
    else:
        inside = [i for i, t in reversed(list(enumerate(ts))) if (lo is None or t <= lo) and (hi is None or t >= hi)]
    return inside[::abs(step or 1)]


def nearest(ts, v):
    return [min(range(len(ts)), key=lambda i: abs(ts[i] - v))]


def run(ctx):
    ctx.rule("select", "the frames handed out are those whose times the selection names, in order")
    ctx.rule("tree", "a selection goes through the levels of the tree to the frames, and activating a frame makes it the default")
    ctx.rule("order", "frames are kept in increasing time whatever the order in which they are added")
    vn = VN(ctx, 3000000)
    n3 = (2, 3, 2)

    def call(expr, times, sel, kw=None, symbolic=True, perm=None, how=None, places=None):
        """times: sorted numbers; symbolic times are symbols of that order"""
        it = vn.interp(dict(HOOKS))
        ts = [var("t%d" % i) if symbolic else P.of(t) for i, t in enumerate(times)]
        vals = {}
        if symbolic:
            vals.update({t.key: v for t, v in zip(ts, times)})
        for k, v in (places or {}).items():
            vals[var(k).key] = v
        if vals:
            it.decider = Order(vals)
        sel = [P.of(q) if isinstance(q, float) else q for q in sel] if isinstance(sel, list) else sel
        fr = [["frame%d" % i, ts[i], symarr("d%d_" % i, n3)] for i in perm or range(len(times))]
        h = {"deferred": False, "depth": 0, "others": False}
        h.update(how or {})
        cc = [(x, c) for x, c in zip("xyz", mkcrds(n3))]
        r = it.probe(M, SRC % dict(expr=expr), [fr, cc, sel, kw or {}, h])
        vn.reached |= it.calls
        return r

    def want(inds):
        return [["frame%d" % i, symarr("d%d_" % i, n3)] for i in inds]

    def same(got, exp):
        """exp: list of [name, values] or one such pair"""
        if exp and isinstance(exp[0], str):
            got, exp = [got], [exp]
        if not isinstance(got, (list, tuple)) or any(g is None for g in got):
            return "the result is %s instead of frames" % (got,)
        names = [g[0] for g in got]
        if names != [e[0] for e in exp]:
            return "%s instead of %s" % (names, [e[0] for e in exp])
        for g, e in zip(got, exp):
            m = differ(g[1], e[1], "values of %s: " % e[0])
            if m:
                return m
        return None

    def case(rule, title, qual, expr, times, sel, exp, **kw):
        def thunk():
            got = call(expr, times, sel, **kw)
            if callable(exp):
                return exp(got)
            return same(got, exp)
        vn.defer(rule, title, qual, thunk)

    T5 = [0.125, 1.25, 2.5, 3.125, 7.25]
    NEG = [-4.25, -1.5, -0.125, 0.25]
    # --- every way to ask, selections by index and by value ------------------------------------
    many = [("iter_times", "answer([g for g in ds.iter_times(sel, **kw)])", "iter_times"),
            ("unresolved", "answer([g for g in ds.iter_times(sel, resolved=False, **kw)])", "iter_times"),
            ("get_times", "answer(ds.get_times(sel, **kw))", "get_times"),
            ("field of each", "[answer(g['p']) for g in ds.iter_times(sel, **kw)]", "iter_times")]
    sels = []
    for i in (0, 1, 4, -1, -5):
        sels.append(("%d" % i, i, [range(5)[i]], True))
    for a, b, c in itertools.product((None, 0, 1, 3, -2), (None, 1, 4, -1, 7), (None, 1, 2, -1)):
        sels.append((":".join("" if q is None else str(q) for q in (a, b, c)), slice(a, b, c),
                     list(range(5))[slice(a, b, c)], True))
    ways = [("", lambda v: v), (" as text", lambda v: v)]
    for k, (title, sel, inds, _) in enumerate(sels):
        for j, (wn, expr, q) in enumerate(many):
            if (k + j) % 2 and j:
                continue
            case("select", "%s of %s" % (wn, title), Q + q, expr, T5, sel, want(inds))
        text = title
        case("select", "get_times of '%s'" % text, Q + "get_times", many[2][1], T5, text, want(inds))
        case("select", "nr_times of '%s'" % text, Q + "nr_times", "ds.nr_times(sel)", T5, text,
             lambda got, n=len(inds): None if got == n else "%s instead of %d" % (got, n))
    # by value: symbolic ends relative to symbolic times
    def at(i, f, times):
        if i < 0:
            return times[0] - 1
        if i >= len(times) - 1:
            return times[-1] + 1
        return times[i] + f * (times[i + 1] - times[i])
    for times in (T5, NEG):
        pos = [at(i, f, times) for i in range(-1, len(times)) for f in ((0.3, 0.7) if 0 <= i < len(times) - 1 else (0.5,))]
        for v in pos:
            case("select", "at %s in %s" % (v, times), Q + "_slice_time", "answer(ds.get_child(1j * sel))", times, var("v"),
                 want(nearest(times, v))[0], places={"v": v})
            case("select", "get_field at %s in %s" % (v, times), Q + "get_field", "answer(ds.get_field('p', time=1j * sel))", times,
                 var("v"), want(nearest(times, v))[0], places={"v": v})
            case("select", "get_grid at %s in %s" % (v, times), Q + "get_grid", "answer(ds.get_grid(time=1j * sel))", times,
                 var("v"), want(nearest(times, v))[0], places={"v": v})
            case("select", "text %sj in %s" % (v, times), Q + "get_times", "answer(ds.get_times(sel))", times,
                 "%sj" % v, want(nearest(times, v)), symbolic=False)
            case("select", "text %sf in %s" % (v, times), Q + "get_time", "answer(ds.get_time(sel))", times,
                 "%sf" % v, want(nearest(times, v))[0], symbolic=False)
        for v, w in itertools.combinations(pos, 2):
            for step in (None, 2):
                i = by_value(times, v, w, step)
                case("select", "from %s to %s step %s in %s" % (v, w, step, times), Q + "iter_times", many[0][1].replace("sel", "slice(1j * sel[0], 1j * sel[1], sel[2])"),
                     times, [var("v"), var("w"), step], want(i), places={"v": v, "w": w})
            i = by_value(times, w, v, -1)
            if i and w <= times[-1] and v >= times[0]:
                case("select", "text %sj:%sj:-1 in %s" % (w, v, times), Q + "iter_times", many[0][1], times, "%sj:%sj:-1" % (w, v), want(i),
                     symbolic=False)
            i = by_value(times, v, w, None)
            case("select", "text %sj:%sj in %s" % (v, w, times), Q + "get_times", many[2][1], times, "%sj:%sj" % (v, w), want(i),
                 symbolic=False)
        for v in pos:
            for txt, i in (("%sj:" % v, by_value(times, v, None, 1)), (":%sf" % v, by_value(times, None, v, 1)),
                           ("%sj::2" % v, by_value(times, v, None, 2))):
                case("select", "text %s in %s" % (txt, times), Q + "get_times", many[2][1], times, txt, want(i), symbolic=False)
        # exactly at a frame both ends are included; not the last one without val_endpoint
        for i, j in itertools.combinations(range(len(times)), 2):
            e = "answer([g for g in ds.iter_times(slice(1j * sel[0], 1j * sel[1]), **kw)])"
            case("select", "from frame %d to frame %d in %s" % (i, j, times), Q + "iter_times", e, times, [times[i], times[j]],
                 want(range(i, j + 1)), symbolic=False)
            case("select", "from frame %d until frame %d in %s" % (i, j, times), Q + "iter_times", e, times, [times[i], times[j]],
                 want(range(i, j)), symbolic=False, kw={"val_endpoint": False})
    for times in ([1.5, 4.25], [-2.5, 0.125, 1.75]):
        for i, j in itertools.product(range(len(times)), repeat=2):
            for incl in (True, False):
                e = "answer([g for g in ds.iter_times(slice(1j * sel[0], 1j * sel[1], sel[2]), **kw)])"
                case("select", "of %d frames from %d to %d %s" % (len(times), i, j, incl), Q + "iter_times", e, times, [times[i], times[j], None],
                     want(range(i, j + incl)), symbolic=False, kw={"val_endpoint": incl})
                case("select", "of %d frames down from %d to %d %s" % (len(times), i, j, incl), Q + "iter_times", e, times, [times[i], times[j], -1],
                     want(range(i, j - incl, -1)), symbolic=False, kw={"val_endpoint": incl})
            case("select", "text of %d frames from %d to %d" % (len(times), i, j), Q + "get_times", many[2][1], times,
                 "%sj:%sj" % (times[i] - 0.1, times[j] + 0.1), want(range(i, j + 1)), symbolic=False)
            case("select", "interior of %d frames from %d to %d" % (len(times), i, j), Q + "get_times", many[2][1], times,
                 "%sj:%sj" % (times[i] - 0.1, times[j] + 0.1), want(range(max(i - 1, 0), min(j + 2, len(times)))), symbolic=False,
                 kw={"interior": True}) if 0 < i <= j < len(times) - 1 else None
    for txt, i in (("[0, 2]", [0, 2]), ("[3, 1]", [3, 1])):
        case("select", "text %s" % txt, Q + "get_times", many[2][1], T5, txt, want(i), symbolic=False)
    case("select", "interior", Q + "iter_times", many[0][1], T5, "1.3j:2.7j", want([1, 2, 3]), symbolic=False, kw={"interior": True})
    # --- order ----------------------------------------------------------------------------------
    for perm in itertools.permutations(range(4)):
        for deferred in (False, True):
            case("order", "added as %s%s" % (perm, " deferred" if deferred else ""), Q + "add", many[0][1], [0.0, 1.0, 2.5, 3.0],
                 slice(None), want(range(4)), perm=perm, how={"deferred": deferred})
    for perm in ((3, 1, 0, 2), (1, 0, 3, 2)):
        case("order", "active after adding %s" % (perm,), Q + "add", "[answer(ds['p']), answer(ds.get_field('p')), answer(ds.get_grid())]",
             [0.0, 1.0, 2.5, 3.0], None, want([perm[-1]] * 3), perm=perm)
    # --- tree -----------------------------------------------------------------------------------
    for depth, deferred, others in itertools.product((0, 1, 2), (False, True), (False, True)):
        if others and not depth:
            continue
        how = {"depth": depth, "deferred": deferred, "others": others}
        tag = "depth %d%s%s" % (depth, " deferred" if deferred else "", " others" if others else "")
        if not others:
            case("tree", "iter_times %s" % tag, M + ".Dataset.iter_times", many[0][1], T5, "1:4", want([1, 2, 3]), how=how)
            case("tree", "get_times %s" % tag, M + ".Dataset.get_times", many[2][1], T5, "::2", want([0, 2, 4]), how=how)
            case("tree", "get_time %s" % tag, M + ".Dataset.get_time", "answer(ds.get_time(sel))", T5, -2, want([3])[0], how=how)
            case("tree", "nr_times %s" % tag, M + ".Dataset.nr_times", "ds.nr_times(sel)", T5, "2:",
                 lambda got: None if got == 3 else "%s instead of 3" % got, how=how)
        case("tree", "activate_time %s" % tag, M + ".Dataset.activate_time",
             "[ds.activate_time(sel), answer([ds['p'], ds.get_field('p'), ds.get_grid()] + [f for f in ds.iter_fields()] "
             "+ [ds.field_dict()['p']] + [f for _, f in ds.iter_field_items()])][1]",
             T5, 2, want([2] * 6), how=how)
        if not deferred:
            case("tree", "time= %s" % tag, M + ".Dataset.get_field",
                 "answer([ds.get_field('p', time=sel), ds.get_grid(time=sel)] + [f for f in ds.iter_fields(time=sel)] "
                 "+ [ds.field_dict(time=sel)['p']] + [f for _, f in ds.iter_field_items(time=sel)])",
                 T5, 1, want([1] * 5), how=how)
        case("tree", "inherited information %s" % tag, "viscid.tree.Node.find_info",
             "[[f.find_info('ours'), f.find_info('mine'), f.time] for f in [g['p'] for g in ds.iter_times(':2')]]", T5, None,
             lambda got: None if [g[:2] for g in got] == [["series", "frame0"], ["series", "frame1"]] and
             all(differ(g[2], var("t%d" % i)) is None for i, g in enumerate(got)) else "%s" % (got,), how=how) if not others else None
    # part of a field at a time
    case("tree", "slice of a field at a time", Q + "get_field", "ds.get_field('p', time=3, slc='x=1').data", T5, None,
         lambda got: differ(got, A(symarr("d3_", n3).a[1:2] if len(got.dims) == 3 else symarr("d3_", n3).a[1])))
    # ends of a range
    for txt, lo, hi in ((":", 0, 4), ("::-1", 4, 0), (slice(None), 0, 4), ("2", 2, 2), (3, 3, 3)):
        case("select", "tslc_range of %s" % txt, Q + "tslc_range", "ds.tslc_range(sel)", T5, txt,
             lambda got, lo=lo, hi=hi: differ(list(got), [var("t%d" % lo), var("t%d" % hi)]))
    for v, w in ((None, 4.0), (0.5, 3.0), (0.5, None), (-2.0, 9.0)):
        txt = "%s:%s" % ("" if v is None else "%sj" % v, "" if w is None else "%sf" % w)
        case("select", "tslc_range of %s" % txt, Q + "tslc_range", "ds.tslc_range(sel)", T5, txt,
             lambda got, v=v, w=w: differ(list(got), [P.of(v) if v is not None else P.of(T5[0]), P.of(w) if w is not None else P.of(T5[4])]),
             symbolic=False)
        case("select", "tslc_range from %s to %s" % (v, w), Q + "tslc_range",
             "ds.tslc_range(slice(None if sel[0] is None else 1j * sel[0], None if sel[1] is None else 1j * sel[1]))", T5, [v, w],
             lambda got, v=v, w=w: differ(list(got), [P.of(v) if v is not None else P.of(T5[0]), P.of(w) if w is not None else P.of(T5[4])]),
             symbolic=False)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")
