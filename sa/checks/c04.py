"""The effect analysis of C01 applied to module globals, class attributes and default
argument objects: one obligation per function of the package, discharged when no path
of it writes to an object that outlives the call, except the confirmed ones."""
import fnmatch

ALLOW = [  # (function glob, kind letter, root glob, reason)
    ("viscid.cython.streamline.calc_streamlines", "g", "viscid.cython.streamline._global_fld",
     "handed to the worker processes; C06 checks that it is reset on every exit"),
    ("viscid.sliceutil._warn_deprecated_float", "g", "*_emit_deprecated_float_warning",
     "a warning is only emitted once"),
    ("viscid.plot.mpl_style.*", "g", "viscid.plot.mpl_style.use_styles", "list of styles to apply"),
    ("viscid.plot.vlab.figure", "g", "viscid.plot.vlab._global_ns", "registry of figures"),
    ("viscid.plot.vlab.*", "c", "viscid.coordinate.Coordinates._axes", "mayavi axes object"),
    ("viscid.plot.from_seaborn.*", "c", "viscid.coordinate.Coordinates._axes", "matplotlib axes"),
    ("viscid.readers.*save_field*", "c", "viscid.coordinate.Coordinates._axes",
     "attributes of h5 datasets"),
    ("viscid.coordinate.StructuredCrds.slice_interp", "c", "viscid.coordinate.Coordinates._axes",
     "fresh list (get_clist)"),
    ("viscid.mapfield.*", "c", "viscid.coordinate.Coordinates._axes", "fresh list (get_clist)"),
    ("viscid.calculator.mpause.*", "g", "viscid.readers.__filebucket__", "names of derived fields"),
    ("viscid.calculator.mpause._main", "g", "*", "test function"),
]


def run(ctx):
    ctx.rule("global", "no function may write to module globals, class attributes or default "
             "arguments, so results do not depend on earlier calls")
    ctx.assumptions = ["objects reachable from a module level name are shared by all later calls"]
    eff = ctx.eff
    n = 0
    for f in ctx.proj.functions():
        if f.mod.name.startswith("viscid.compat") or f.name in ("main", "_main"):
            continue
        n += 1
        s = eff.sum.get(f.qual)
        why, bad = [], None
        for (r, k), m in sorted(s.mut.items(), key=str) if s else ():
            if r[0] not in "gcd":
                continue
            if m.chain:
                callee = m.chain[0].split(" ")[0]
                cs = eff.sum.get(callee)
                if cs is not None and any(q[0] == r and kk == k for (q, kk) in
                                          [((rr,), kk) for (rr, kk) in cs.mut]):
                    continue      # reported where the object enters the chain
            w = [a[3] for a in ALLOW if a[1] == r[0] and fnmatch.fnmatchcase(f.qual, a[0])
                 and fnmatch.fnmatchcase(r[1], a[2])]
            if w:
                why += w
            else:
                bad = bad or (r, k, m)
        if bad:
            r, k, m = bad
            what = {"g": "module global", "c": "class attribute", "d": "default argument"}[r[0]]
            ctx.bad("global", "%s:%s" % (f.qual, r[1]), "may write to the %s %s (%s)%s" % (
                what, ".".join((r[1],) + tuple(r[2])), m.how,
                " via " + " <- ".join(m.chain) if m.chain else ""), m.loc)
        else:
            ctx.ok("global", f.qual, "; ".join(sorted(set(why))))
    ctx.need(n, 900, "functions analysed")
