"""The effect analysis of C01 applied to the receiver: every public method of fields,
coordinates, seeds, grids, datasets and coordinate transforms that is not one of the
declared mutators leaves the object's own values (data, coordinate values, names,
children, options) as they were; only lazily computed caches may be filled."""
from .. import mutcheck

MODS = ("viscid.field", "viscid.amr_field", "viscid.coordinate", "viscid.seed", "viscid.grid",
        "viscid.amr_grid", "viscid.dataset", "viscid.tree", "viscid.cotr", "viscid.readers.hdf5.H5pyDataWrapper",
        "viscid.readers.vfile.DataWrapper", "viscid.readers.numpy_binary.NPZDataWrapper",
        "viscid.bucket", "viscid.readers.xdmf", "viscid.readers.openggcm.GGCMGrid")

MUTATORS = {  # method name -> reason
    "__init__": "constructor", "__new__": "constructor", "__setitem__": "mutator by contract",
    "__delitem__": "mutator by contract", "add": "mutator", "add_deferred": "mutator",
    "add_field": "mutator", "remove_all_items": "mutator", "activate": "selects the active child",
    "activate_time": "selects the active child", "forget_source": "declared cache control",
    "clear_crds": "mutator", "clear_cache": "declared cache control", "update_info": "mutator",
    "prepare_child": "links children", "tear_down_child": "links children",
    "__exit__": "declared cache control", "__enter__": "declared cache control",
    "unload": "lifecycle", "load": "lifecycle", "reload": "lifecycle", "_parse": "lifecycle",
    "set_item": "mutator", "remove_item": "mutator", "remove_item_by_handle": "mutator",
    "remove_reference": "mutator", "shell_copy": "copies",
}
# (method, path) pairs that are lazy initialisation
LAZY = {("viscid.grid.Grid.crds", ("_src_crds",)): "resolves deferred coordinates once",
        ("viscid.field.Field.__setitem__", ("_cache",)): "item assignment is a mutator"}


def run(ctx):
    ctx.rule("self", "a method that is not a declared mutator may not write to its object's values")
    ctx.assumptions = ["attributes named *_cached_*, _points, _layout, _units, _crds, _shape, _dtype "
                       "are lazily computed values"]
    api = mutcheck.load_api()["self"]
    ix = mutcheck.fn_index(ctx)
    n = 0
    for qual in api:
        if not any(qual == m or qual.startswith(m + ".") for m in MODS):
            continue
        f = ix.get(qual)
        if f is None or f.cls is None or not f.params:
            continue
        if f.name in MUTATORS or f.name.startswith("set_") or f.qual.endswith(".setter"):
            continue
        n += 1
        s = ctx.eff.sum.get(qual)
        bad = None
        why = []
        for (r, k), m in sorted(s.mut.items(), key=str) if s else ():
            if r[0] != "p" or r[1] != f.params[0] or not mutcheck.relevant(r[2], k):
                continue
            if (qual, r[2]) in LAZY:
                why.append(LAZY[(qual, r[2])])
                continue
            if f.cls.name in ("H5pyDataWrapper", "NPZDataWrapper") and r[2] in (("loc",), ("comp_dim",)):
                why.append("location is resolved once")
                continue
            w = mutcheck.allowed(qual, r[1], r[2], k)
            if w:
                why.append(w)
                continue
            bad = bad or (r[2], k, m)
        if bad:
            path, k, m = bad
            ctx.bad("self", qual, "may write to self.%s (%s)%s" % (
                ".".join(path), m.how, " via " + " <- ".join(m.chain) if m.chain else ""), m.loc)
        else:
            ctx.ok("self", qual, "; ".join(sorted(set(why))))
    ctx.need(n, 300, "methods analysed")
