"""Shared part of the 'who may modify what' checks (C01-C04).

The effect analysis (sa/effects.py) gives, for every function, the set of
objects reachable from its arguments, from module globals, from class
attributes and from parameter defaults that some path of the function (or of
anything it calls, through resolved callees) may write to.  The checks compare
this set with the public interface frozen in sa/api.json: every public
function is an obligation per parameter, and the only accepted writes are the
ones in ALLOW, each confirmed by reading the code and listed with its reason.
"""
from __future__ import annotations
import fnmatch
import json
import os

API = os.path.join(os.path.dirname(__file__), "api.json")

# attributes holding the values of a field / of coordinates, as opposed to
# lazily computed caches
CONTENT = {"_src_data", "_cache", "_src_crds", "_axes", "_Pcrds", "_nc_linspace_args",
           "_cc_linspace_args", "_fields", "_info", "_points"}
REBOUND = {"_src_data", "_src_crds", "_axes", "_nc_linspace_args", "_cc_linspace_args",
           "_center", "_fields", "_name", "_time"}


def relevant(path, kind):
    """is a write to this access path visible to the owner of the object?"""
    if not path:
        return kind != "rebind"
    if not any(a.startswith("_") for a in path):
        return True
    last = path[-1]
    head = path[:-1]
    if any(a.startswith("_") and a not in CONTENT for a in head):
        return False
    if kind == "rebind":
        return last in REBOUND or not last.startswith("_")
    return last in CONTENT or not last.startswith("_")


# (function glob, parameter glob, path glob, kind glob, reason)
ALLOW = [
    # seeds normalise the array they own the first time they are evaluated
    ("*", "*", "*pts", "rebind", "seed points are normalised to a 3xN view once, same values"),
    ("viscid.coordinate.StructuredCrds.slice_interp", "*", "*", "*",
     "writes into the coordinate list it built itself (get_clist returns fresh pairs)"),
    ("viscid.field.Field.interpolated_slice", "*", "*", "*", "as slice_interp"),
    ("viscid.mapfield.*", "*", "*_axes", "item", "get_clist returns fresh pairs"),
    ("*", "*", "*loc*_axes", "item", "get_clist returns fresh pairs (mapfield)"),
    ("*", "*", "*patches", "*", "list of patches built by the plotting/topology function itself"),
    ("*", "*", "*_cache.meta", "item", "meta data of the new sliced field"),
    ("*", "*", "*_src_data.meta", "item", "meta data of the new sliced field"),
    ("viscid.dipole.fill_dipole", "B", "*", "*", "documented output argument"),
    ("viscid.dipole.set_in_region", "out", "*", "*", "documented output argument"),
    ("viscid.fluidtrace.follow_fluid", "curator", "*", "*", "curators are the state of the trace"),
    ("viscid.fluidtrace.*Curator.update", "delmask", "*", "*", "documented in/out mask"),
    ("viscid.sliceutil.prune_comp_sel", "sel_list", "*", "*", "helper working on its own list"),
    ("viscid.sliceutil.fill_nd_sel_list", "sel_list", "*", "*", "helper working on its own list"),
    ("viscid.sliceutil.standardize_sel_list", "sel_list", "*", "*", "helper working on its own list"),
    ("viscid.vutil.timeit", "kwargs", "*", "*", "keyword dictionary is fresh in every call"),
    ("viscid.cython.cycalc.closest_*ind", "cached_idx3", "*", "*", "documented cache argument"),
    ("viscid.cython.cyamr.activate_patch", "*", "*", "*", "selects the active patch by contract"),
    ("viscid.import_injector", "*", "*", "*", "fills the namespace it is given by contract"),
    ("viscid._CustomFilter.filter", "record", "*", "*", "logging filter by contract"),
    ("viscid.dataset.Dataset*.add", "child", "*", "*", "adding links the child to its parent"),
    ("viscid.dataset.DatasetTemporal.add", "child", "*", "*", "adding links the child to its parent"),
    ("viscid.field.Field.argmax", "out", "*", "*", "numpy output argument"),
    ("viscid.field.Field.argmin", "out", "*", "*", "numpy output argument"),
    ("viscid.field.Field.clip", "out", "*", "*", "numpy output argument"),
    ("viscid.field.Field.ptp", "out", "*", "*", "numpy output argument"),
    ("viscid.field.Field.round", "out", "*", "*", "numpy output argument"),
    ("viscid.tree.Node.prepare_child", "obj", "*", "*", "links a child by contract"),
    ("viscid.tree.Node.tear_down_child", "obj", "*", "*", "unlinks a child by contract"),
    ("viscid.grid.Grid.add_field", "*", "*", "*", "the grid takes ownership of the fields"),
    ("viscid.readers.openggcm.GGCMGrid.set_crds", "*", "*", "*", "the grid takes ownership"),
    ("viscid.readers.openggcm.GGCMGrid.add_field", "*", "*", "*", "the grid takes ownership"),
    ("viscid.readers.openggcm.mhd2gse_field_*", "arr", "*", "*", "documented in-place transform"),
    ("viscid.readers.hdf5.H5pyDataWrapper.read_direct", "arr", "*", "*", "destination buffer"),
    ("viscid.readers.hdf5.FileHDF5.save_fields", "flds", "*attrs*", "item", "attributes of the h5 datasets just created"),
    ("viscid.readers.vfile.VFile.save_field", "fld", "*attrs*", "item", "attributes of the h5 datasets just created"),
    ("viscid.readers.*.save_field*", "*", "*linspace_args", "item", "pads the list it just built"),
    ("viscid.readers.vfile.serialize_subclasses", "_lst", "*", "*", "recursion accumulator"),
    ("viscid.plot.from_seaborn.despine", "ax", "*", "*", "modifies the axes by contract"),
    ("viscid.calculator.mpause.get_mp_info", "*", "*pretty_name", "rebind", "names of derived fields"),
    ("viscid.calculator.mpause.get_mp_info", "*", "*name", "rebind", "names of derived fields"),
]

# functions that record the centering marker in the info of the field they get
for _q in ("viscid.calculator.ecfc.*", "viscid.calculator.necalc.div",
           "viscid.field.Field.as_centered", "viscid.field.Field.as_cell_centered"):
    ALLOW.append((_q, "*", "*_info", "item", "staggering marker recorded in the info dictionary"))
def allowed(qual, param, path, kind):
    dp = ".".join(path)
    for fg, pg, ag, kg, why in ALLOW:
        if fnmatch.fnmatchcase(qual, fg) and fnmatch.fnmatchcase(param, pg) and \
           fnmatch.fnmatchcase(dp, ag) and fnmatch.fnmatchcase(kind, kg):
            return why
    return None


def load_api():
    with open(API) as fh:
        return json.load(fh)


def fn_index(ctx):
    ix = {}
    for f in ctx.proj.functions():
        ix[f.qual] = f
    return ix


# constructors take ownership of these (they become the object's own state)
OWNED = {"info", "args", "kwargs", "fname", "filename"}

DATA_MODULES = ("viscid.calculator", "viscid.cython", "viscid.rotation", "viscid.cotr",
                "viscid.dipole", "viscid.mapfield", "viscid.fluidtrace", "viscid.npdatetime",
                "viscid.coordinate", "viscid.field", "viscid.amr_field", "viscid.sliceutil",
                "viscid.seed", "viscid.pyeval")


def in_scope(qual, scope):
    hit = any(qual == m or qual.startswith(m + ".") for m in DATA_MODULES)
    return hit if scope == "data" else not hit


def check_args(ctx, scope, rule):
    api = load_api()["args"]
    ix = fn_index(ctx)
    nfun = npar = 0
    missing = []
    for qual in sorted(api):
        if not in_scope(qual, scope):
            continue
        f = ix.get(qual)
        if f is None:
            missing.append(qual)
            continue
        nfun += 1
        s = ctx.eff.sum.get(qual)
        muts = {}
        if s is not None:
            for (r, k), m in s.mut.items():
                if r[0] == "p":
                    muts.setdefault(r[1], []).append((r[2], k, m))
        for par in api[qual]:
            if par not in f.allparams:
                continue
            npar += 1
            why = []
            bad = None
            for path, k, m in sorted(muts.get(par, []), key=lambda x: (len(x[0]), x[0], x[1])):
                if not relevant(path, k):
                    continue
                if f.name == "__init__" and par in OWNED:
                    continue
                if f.name.endswith("__setitem__") and scope != "data":
                    continue
                if scope != "data" and qual.startswith("viscid.plot.") and k == "rebind":
                    continue
                if qual in ("viscid.plot.vlab.insert_filter", "viscid.plot.vlab.remove_source"):
                    continue
                if f.name == "__init__" and path and path[-1] in ("parents", "time"):
                    continue
                w = allowed(qual, par, path, k)
                if w:
                    why.append(w)
                    continue
                bad = bad or (path, k, m)
            inst = "%s(%s)" % (qual, par)
            if bad:
                path, k, m = bad
                ctx.bad(rule, inst, "may write to %s (%s)%s" % (
                    ".".join((par,) + tuple(path)), m.how,
                    " via " + " <- ".join(m.chain) if m.chain else ""), m.loc)
            else:
                ctx.ok(rule, inst, "; ".join(sorted(set(why))))
    ctx.need(nfun, int(0.9 * (nfun + len(missing))), "public functions analysed")
    ctx.need(npar, 300, "parameters analysed")
