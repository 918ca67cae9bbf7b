"""Value numbering of where information about a field is found (viscid/tree.py, field.py): every way
to make a field from another is interpreted and asked for the time and the information that is set
on the field, its grid and its dataset; the search through the parents is interpreted on
every small graph of parents."""
from __future__ import annotations
import itertools
from ..alg import P, var
from ..interp import A, Obj, symarr, Raised
from ..vn import VN, differ
from .c14 import HOOKS, crds as mkcrds, shape

M = "viscid.dataset"
T = "viscid.tree.Node."
NS = (4, 5, 6)
SRC = '''
def probe(dat, cc, nr, lay, center, t, marks, lazy):
    ds = Dataset(name="ds")
    ds.set_info("ds_info", marks[0])
    ds.set_info("shared", marks[0])
    g = Grid(name="grid")
    g.time = t
    g.set_info("grid_info", marks[1])
    g.set_info("shared", marks[1])
    ds.add(g)
    crds = viscid.wrap_crds("nonuniform_cartesian", cc)
    g.set_crds(crds)
    f = viscid.wrap_field(dat, crds, name="f", center=center, fldtype="vector" if nr else "scalar", layout=lay, time=None)
    g.add_field(f)
    f.set_info("fld_info", marks[2])
    f.set_info("shared", marks[2])
    f.meta["note"] = marks[3]
    f.deep_meta["deep"] = marks[4]
    if not lazy:
        f.data
    r = %(expr)s
    if not isinstance(r, viscid.field.Field):
        return None
    before = [r.time, r.find_info("ds_info", None), r.find_info("grid_info", None), r.find_info("fld_info", None),
              r.find_info("shared", None), r.meta.get("note", None), r.deep_meta.get("deep", None)]
    r.set_info("shared", "mine")
    r.set_info("new", "mine")
    r.meta["note"] = "mine"
    r.meta["another"] = "mine"
    r.deep_meta["deep"] = "mine"
    after = [f.time, f.find_info("shared", None), f.find_info("new", "none"), f.meta.get("note", None), f.meta.get("another", "none"),
             f.deep_meta.get("deep", None), g.find_info("shared", None), ds.find_info("shared", None), r.find_info("shared", None),
             r.find_info("new", None), f.find_info("fld_info", None)]
    return [before, after, r is f, r.name, r.pretty_name]
'''
# expression -> what else it keeps: n(ame), m(eta)
OPS = {
    "f[1:]": "nm", "f[:, ::2]": "nm", "f['x=1']": "nm", "f['x=1:, z=::2']": "nm", "f['y=-1, x=:2']": "nm",
    "f.slice('x=1:')": "nm", "f.slice_keep('x=1')": "nm", "f.slice_reduce('x=1')": "nm", "f.slice_and_keep('z=1')": "nm",
    "f.slice_and_reduce('x=1:2, y=1:')": "nm",
    "f + f": "m", "f - 1": "m", "2 * f": "m", "f / f": "m", "f ** 2": "m", "-f": "m", "abs(f)": "m", "f > 1": "m", "f == f": "m",
    "np.sqrt(f)": "m", "np.exp(f)": "m", "np.add(f, 1)": "m",
    "f.shell_copy(force=True)": "nm", "f.as_cell_centered()": "nm", "f.as_node_centered()": "nm", "f.as_centered('cell')": "nm",
    "f.astype('f4')": "m", "f.atleast_3d()": "m", "f['x=1'].atleast_3d()": "m", "f.as_c_contiguous()": "m",
    "f.T": "m", "f.transpose()": "m", "f.wrap(f.data)": "m", "f.real": "m",
    "f.swapaxes(0, 1)": "m", "f.sum(axis=0)": "m", "f.mean(axis=1)": "m", "f.max(axis=2)": "m",
    "viscid.empty_like(f)": "", "viscid.zeros_like(f)": "", "viscid.ones_like(f)": "", "viscid.full_like(f, 2.0)": "",
    "viscid.extend_boundaries(f)": "m", "f['x=1:']['y=::2'] * 2": "m", "(-f.as_cell_centered())[1:]": "m",
    "g['f']": "nm", "ds['f']": "nm", "ds.get_field('f', slc='x=1:')": "nm", "f.resolve()": "nm",
}
VOPS = {"f['x']": "m", "f['y, x=1:']": "m", "f.component_fields()[1]": "m", "f.as_flat()": "m", "f.as_interlaced()": "m",
        "f.as_layout('flat')": "m", "f.as_layout('interlaced')": "m",
        "viscid.magnitude(f)": "m", "viscid.normalize(f)": "m", "viscid.dot(f, f)": "m", "viscid.cross(f, f)": "m",
        "viscid.project(f, f)": "m", "viscid.project_vector(f, f)": "m", "viscid.div(f)": "", "viscid.curl(f)": ""}


def run(ctx):
    ctx.rule("derived", "a field made from another has its time and finds the information of the field, its grid and its dataset")
    ctx.rule("apart", "information set on the new field is not seen by the one it was made from")
    ctx.rule("search", "the nearest owner of an information or attribute is found, level by level, and cycles end")
    vn = VN(ctx, 3000000)
    marks = ["the dataset", "the grid", "the field", "a note", "a deep note"]
    for center, nr in itertools.product(("node", "cell"), (0, 3)):
        for lay in ("flat", "interlaced") if nr else ("flat",):
            sh = shape(center, NS)
            dat = symarr("f", ((nr,) + sh if lay == "flat" else sh + (nr,)) if nr else sh)
            for expr, keep in list(OPS.items()) + (list(VOPS.items()) if nr else []):
                for lazy in (False, True):
                    if nr and expr.startswith(("f.swapaxes", "f.sum", "f.mean", "f.max")):
                        continue

                    def get(expr=expr, dat=dat, nr=nr, lay=lay, center=center, lazy=lazy):
                        it = vn.interp(dict(HOOKS))
                        cc = [(x, c) for x, c in zip("xyz", mkcrds(NS))]
                        r = it.probe(M, SRC % dict(expr=expr), [dat, cc, nr, lay, center, var("time"), marks, lazy])
                        vn.reached |= it.calls
                        return r

                    def derived(get=get, keep=keep):
                        r = get()
                        if r is None:
                            return "the result is not a field"
                        b = r[0]
                        m = "has no time" if b[0] is None else differ(b[0], var("time"), "the time ")
                        if m:
                            return m
                        for n, got, want in zip(("information of the dataset", "information of the grid", "information of the field",
                                                 "information that is set on all three"), b[1:5], marks[:3] + marks[2:3]):
                            if got != want:
                                return "%s: %r instead of %r" % (n, got, want)
                        if "m" in keep and b[5] != marks[3]:
                            return "note %r instead of %r" % (b[5], marks[3])
                        if "n" in keep and r[3:] != ["f", "f"]:
                            return "named %s, %s" % tuple(r[3:])
                        return None

                    def apart(get=get):
                        r = get()
                        if r is None or r[2] is True:
                            return None
                        a = r[1]
                        want = [marks[2], "none", marks[3], "none", marks[4], marks[1], marks[0], "mine", "mine", marks[2]]
                        for n, g, w in zip(("information of the source", "new information of the source", "note of the source",
                                            "new note of the source", "deep note of the source",
                                            "information of the grid", "information of the dataset", "own information",
                                            "new own information", "information of the source"), a[1:], want):
                            if g != w:
                                return "%s: %r instead of %r" % (n, g, w)
                        return differ(a[0], var("time"), "the time of the source ")
                    tag = "%s %s%s%s" % (expr, center, " vector " + lay if nr else "", " not loaded" if lazy else "")
                    q = "viscid.field.Field.shell_copy" if "copy" in expr or "[" in expr else "viscid.field.Field.wrap"
                    vn.defer("derived", tag, q, derived)
                    if not lazy:
                        vn.defer("apart", tag, q, apart)
    search(ctx, vn)
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 5, "interpreted functions")


GRAPH = '''
def probe(parents, owners, start, how):
    ns = [tree.Node(name="n%%d" %% i) for i in range(len(parents))]
    for i, ps in enumerate(parents):
        for p in ps:
            ns[p].prepare_child(ns[i])
            ns[p].prepare_child(ns[i])
    for i, v in owners:
        ns[i].set_info("key", v)
        ns[i].set_info("only%%d" %% i, v)
        if how == "attr":
            ns[i].special = v
    s = ns[start]
    try:
        r = %(expr)s
    except KeyError:
        r = "KeyError"
    except AttributeError:
        r = "AttributeError"
    return [r, [n._info.get("key", None) for n in ns]]
'''


def levels(parents, start):
    """nodes in the order of a breadth first search"""
    seen, out, level = set(), [], [start]
    while level:
        nxt = []
        for i in level:
            if i not in seen:
                seen.add(i)
                out.append(i)
                nxt += parents[i]
        level = nxt
    return out


def search(ctx, vn):
    graphs = [
        ("alone", [[]]), ("chain", [[1], [2], [3], []]), ("two parents", [[1, 2], [], []]), ("diamond", [[1, 2], [3], [3], []]),
        ("uneven", [[1, 2], [3], [], [4], []]), ("short way", [[1, 2], [3], [4], [4], []]), ("cycle", [[1], [2], [0, 3], []]),
        ("itself", [[0, 1], []]), ("deep and near", [[1, 3], [2], [4], [], []]), ("two cycles", [[1, 2], [0], [0, 3], []]),
        ("order", [[2, 1], [3], [4], [], []]),
    ]
    for title, g in graphs:
        n = len(g)
        for r in range(0, 3):
            for own in itertools.combinations(range(n), r):
                order = levels(g, 0)
                near = next((i for i in order if i in own), None)
                val = ["value%d" % i for i in range(n)]
                owners = [[i, val[i]] for i in own]

                def ask(expr, g=g, owners=owners, how="info"):
                    it = vn.interp(dict(HOOKS))
                    res = it.probe(M, GRAPH % dict(expr=expr), [g, owners, 0, how])
                    vn.reached |= it.calls
                    return res
                miss = near is None
                cases = [
                    ("find_info", "s.find_info('key')", "KeyError" if miss else val[near], None),
                    ("find_info default", "s.find_info('key', default=None)", None if miss else val[near], None),
                    ("find_info_owner", "s.find_info_owner('key').name", "KeyError" if miss else "n%d" % near, None),
                    ("has_info", "s.has_info('key')", 0 in own, None),
                    ("get_info", "s.get_info('key')", val[0] if 0 in own else "KeyError", None),
                    ("get_info default", "s.get_info('key', default='d')", val[0] if 0 in own else "d", None),
                    ("get_all_info", "sorted([[k, v] for k, v in s.get_all_info().items()])",
                     sorted(([["key", val[near]]] if not miss else []) + [["only%d" % i, val[i]] for i in own]), None),
                    ("update_info", "s.update_info('key', 'new')", None, (0 if miss else near, "new")),
                    ("update_info strict", "s.update_info('key', 'new', fallback=False)", "KeyError" if miss else None,
                     None if miss else (near, "new")),
                    ("set_info", "s.set_info('key', 'new')", None, (0, "new")),
                ]
                for name, expr, want, changed in cases:
                    def thunk(ask=ask, expr=expr, want=want, changed=changed, own=own, val=val, n=n):
                        got, state = ask(expr)
                        if isinstance(got, list):
                            got = [list(q) for q in got]
                        if got != want:
                            return "%r instead of %r" % (got, want)
                        exp = [val[i] if i in own else None for i in range(n)]
                        if changed:
                            exp[changed[0]] = changed[1]
                        if state != exp:
                            return "the information is %r instead of %r" % (state, exp)
                        return None
                    vn.defer("search", "%s %s owners %s" % (name, title, own), T + name.split()[0], thunk)
                for name, expr, want in (("find_attr", "s.find_attr('special')", "AttributeError" if miss else val[near]),
                                         ("find_attr default", "s.find_attr('special', default='d')", "d" if miss else val[near])):
                    def thunk2(ask=ask, expr=expr, want=want):
                        got, _ = ask(expr, how="attr")
                        return None if got == want else "%r instead of %r" % (got, want)
                    vn.defer("search", "%s %s owners %s" % (name, title, own), T + "find_attr", thunk2)
    # time and tear down
    for title, expr, want in (
            ("own time", "[setattr(s, 'time', 2.5), s.time][1]", 2.5),
            ("time of the parent", "[setattr(ns[1], 'time', 2.5), s.time][1]", 2.5),
            ("time of the nearest", "[setattr(ns[2], 'time', 1.5), setattr(ns[1], 'time', 2.5), s.time][2]", 2.5),
            ("no time", "s.time", None),
            ("None leaves the time alone", "[setattr(s, 'time', 2.5), setattr(s, 'time', None), s.time][2]", 2.5),
            ("torn down", "[ns[2].set_info('key', 'v'), ns[1].tear_down_child(ns[0]), s.find_info('key', default='gone')][2]", "gone"),
            ("torn down twice", "[ns[1].tear_down_child(s), ns[1].tear_down_child(s), len(s.parents)][2]", 0)):
        def thunk3(expr=expr, want=want):
            it = vn.interp(dict(HOOKS))
            got, _ = it.probe(M, GRAPH % dict(expr=expr), [[[1], [2], []], [], 0, ""])
            vn.reached |= it.calls
            if isinstance(want, float):
                return differ(got, P.of(want), "the time ") if got is not None else "no time"
            return None if got == want else "%r instead of %r" % (got, want)
        vn.defer("search", title, T + "time", thunk3)
