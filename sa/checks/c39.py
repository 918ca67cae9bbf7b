"""Value numbering of 2-d and 1-d plots of fields (viscid/plot/vpyplot.py): what the axes of the
plotting library are given, compared with the values and coordinates of the field."""
from __future__ import annotations
import itertools
import numpy as np
from ..alg import P, var
from ..interp import A, Obj, Raised, Native, symarr, arr
from ..vn import VN, Order, differ
from .c14 import HOOKS

M = "viscid.plot.vpyplot"
SRC = '''
def probe(data, crds, center, slc, name, ax, opts, kwargs, nd):
    c = viscid.coordinate.wrap_crds("nonuniform_cartesian", [(a, x) for a, x in zip("xyz", crds)])
    f = viscid.field.wrap_field(data, c, name="rho", center=center)
    if slc:
        f = f[slc]
    before = [f.data * 1, [x * 1 for x in f.get_crds_nc()], [x * 1 for x in f.get_crds_cc()]]
    if nd == 2 and center == "node":
        before.append([x * 1 for x in f.as_cell_centered().get_crds_nc()])
    viscid.plot.vpyplot.NAME(f, ax=ax, plot_opts=opts, **kwargs)
    return before, [f.data, f.get_crds_nc(), f.get_crds_cc()], f.crds.axes
'''


def N(f, name):
    return Native(f, name)


class Axes:
    """records what it is given"""

    def __init__(self, shared=False):
        self.log = []
        self.cmap = Obj(attrs={"set_bad": N(lambda it, a, k: None, "set_bad")})
        self.axis_ = Obj(model={"__getattr__": None})
        none = lambda *n: {x: N(lambda it, a, k: None, x) for x in n}
        xax = Obj(attrs=none("set_major_formatter", "set_minor_formatter", "set_major_locator", "set_minor_locator", "set_ticks_position"))
        group = Obj(attrs={"get_siblings": N(lambda it, a, k: [self.ax] + ([self.other] if shared else []), "get_siblings")})
        quiet = {"get_shared_x_axes": N(lambda it, a, k: group, "g"), "get_shared_y_axes": N(lambda it, a, k: group, "g"),
                 "get_axes_locator": N(lambda it, a, k: None, "l"), "is_last_row": N(lambda it, a, k: True, "r"), "is_first_col": N(lambda it, a, k: True, "c"),
                 "get_aspect": N(lambda it, a, k: "auto", "a"), "get_adjustable": N(lambda it, a, k: "box", "a"), "get_anchor": N(lambda it, a, k: "C", "a"),
                 "get_autoscale_on": N(lambda it, a, k: True, "a"), "get_xscale": N(lambda it, a, k: "linear", "a"), "get_yscale": N(lambda it, a, k: "linear", "a"),
                 "xaxis": xax, "yaxis": xax, "transProjection": None,
                 "get_figure": N(lambda it, a, k: Obj(attrs={"autofmt_xdate": N(lambda it, a, k: None, "x")}), "f")}
        rec = {n: N(lambda it, a, k, n=n: self.add(n, a, k), n) for n in (
            "pcolormesh", "pcolor", "contour", "contourf", "plot", "set_xlim", "set_ylim", "set_xlabel", "set_ylabel", "set_title", "set_xscale", "set_yscale",
            "add_artist", "autoscale_view", "set_autoscale_on", "set_aspect", "axis", "legend", "grid")}
        self.ax = Obj(attrs={**quiet, **rec})
        self.other = Obj(attrs=dict(quiet))

    def add(self, n, a, k):
        self.log.append((n, list(a), dict(k)))
        p = Obj(attrs={"get_cmap": N(lambda it, a, k: self.cmap, "get_cmap")})
        return [p] if n == "plot" else p

    def get(self, n):
        return [(a, k) for m, a, k in self.log if m == n]


def times(a, s):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = P.of(a[i]) * P.of(s)
    return A(out)


def plain(x):
    return x.attrs["masked data"] if isinstance(x, Obj) and "masked data" in x.attrs else x


def masked(it, data):
    o = Obj(attrs={"masked data": data, "mask": A(np.zeros(data.a.shape, dtype=object)), "data": data, "shape": tuple(data.a.shape)})
    t = A(data.a.T)
    o.attrs["T"] = Obj(attrs={"masked data": t, "mask": A(np.zeros(t.a.shape, dtype=object)), "T": o})
    return o


def run(ctx):
    ctx.rule("place", "every value of a field, times scale, is shown at its own coordinates, times mod")
    ctx.rule("limits", "the colours cover the shown values or the given limits, and the axes the field or the given limits")
    ctx.rule("labels", "axes and title say what is shown or what was asked for")
    ctx.rule("same", "the plotted field keeps its values and coordinates")
    ctx.assumptions = ["no value is a nan; masked arrays keep their data"]
    vn = VN(ctx, 3000000)
    NS = (4, 5, 4)

    def go(fun, center, slc, opts, kw, nd):
        ax = Axes()
        it = vn.interp(dict(HOOKS), {M + ".rcParams": {}, "viscid.plot.vpyplot.rcParams": {}})
        env = {}
        ns = NS[:nd]
        sh = tuple(n - (center == "cell") for n in ns)
        rng = 7
        for k, i in enumerate(np.ndindex(sh)):
            rng = (rng * 37 + 11) % 1009
            env[var("f%s" % list(i)).key] = rng - 300.5
        for x, n in zip("xyz", ns):
            for i in range(n):
                env[var("c%s[%d]" % (x, i)).key] = 1.0 + i * (1 + i / 9)
        it.decider = Order({**env, var("s").key: 2.5, var("mx").key: 3.0, var("my").key: 5.0, var("lo").key: -1.5, var("hi").key: 2.0})
        it.ext["numpy.ma.masked_where"] = lambda it, a, k: masked(it, plain(a[1])) if isinstance(plain(a[1]), A) else masked(it, it.getattr(a[1], "data"))
        it.ext["numpy.nanmin"], it.ext["numpy.nanmax"] = it.ext["numpy.min"], it.ext["numpy.max"]
        norm = lambda kind: lambda it, a, k: Obj(attrs={"vmin": a[0] if a else k.get("vmin"), "vmax": a[1] if len(a) > 1 else k.get("vmax"), "kind": kind})
        it.ext["matplotlib.colors.Normalize"] = norm("lin")
        it.ext["matplotlib.colors.LogNorm"] = norm("log")
        it.ext["distutils.version.LooseVersion"] = lambda it, a, k: [int(x) for x in a[0].split(".")] if isinstance(a[0], str) else [3, 3]
        it.ext["matplotlib.ticker.LogLocator"] = it.ext["matplotlib.ticker.MaxNLocator"] = it.ext["matplotlib.ticker.LinearLocator"] = lambda it, a, k: None
        it.ext["numpy.logspace"] = lambda it, a, k: symarr("level", (a[2],))
        for n in ("sca", "show", "get_cmap", "Rectangle"):
            it.ext["matplotlib.pyplot." + n] = lambda it, a, k: None
        it.ext["matplotlib.pyplot.gca"] = lambda it, a, k: ax.ax
        data = symarr("f", sh)
        crds = [symarr("c" + x, (n,)) for x, n in zip("xyz", ns)]
        before, after, axes = it.probe("viscid.amr_grid", SRC.replace("NAME", fun), [data, crds, center, slc, "rho", ax.ax, opts, dict(kw), 1 if fun == 'plot1d_field' else 2])
        vn.reached |= it.calls
        return it, ax, before, after, list(axes), env
    s, mx, my, lo, hi = (var(n) for n in ("s", "mx", "my", "lo", "hi"))

    def same(before, after):
        r = differ(after[0], before[0], "values ")
        for w, i in (("edges", 1), ("centres", 2)):
            for a, b in zip(after[i], before[i]):
                r = r or differ(a, b, w + " ")
        return r

    def ev(it, p):
        return it.decider.value(P.of(p))[0]

    def place2(style, center, nd, slc, opts, kw, rule):
        def thunk():
            it, ax, before, after, axes, env = go("plot2d_field", center, slc, opts, dict(kw, colorbar=False), nd)
            if rule == "same":
                return same(before, after)
            calls = ax.get(style)
            if len(calls) != 1 or any(ax.get(x) for x in ("pcolormesh", "pcolor", "contour", "contourf") if x != style):
                return "%d calls of %s" % (len(calls), style)
            (a, k), = calls
            X, Y, D = [plain(x) for x in a[:3]]
            flip = bool(kw.get("flip_plot") or kw.get("flipplot"))
            f = before[0].a
            nc, cc = [x.a for x in before[1]], [x.a for x in before[2]]
            sc = kw.get("scale", 1)
            if style in ("pcolormesh", "pcolor") and center == "node":
                nc = [x.a for x in before[3]]
            cr = nc if style in ("pcolormesh", "pcolor") or center == "node" else cc
            md = kw.get("mod") or (1, 1)
            if rule == "place":
                want = times(f, sc)
                if not flip:
                    want = A(want.a.T)
                r = differ(D, want, "values ")
                if r:
                    return r
                for got, i, w in ((X, 1 if flip else 0, "horizontal "), (Y, 0 if flip else 1, "vertical ")):
                    g, e = got.a, times(cr[i], md[i]).a
                    if g.shape != e.shape:
                        return "%s coordinates have shape %s" % (w, g.shape)
                    if cr is cc and center == "cell":       # the outermost are drawn up to the edges
                        for n in (0, -1):
                            if not differ(A(g[n:][:1]), A(times(nc[i], md[i]).a[n:][:1]), "x"):
                                e[n] = g[n]
                    r = r or differ(A(g), A(e), w)
                return r
            if rule == "labels":
                n = [axes[1], axes[0]] if flip else axes
                for m, w in (("set_xlabel", kw.get("xlabel") or n[0]), ("set_ylabel", kw.get("ylabel") or n[1])):
                    got = [c[0][0] for c in ax.get(m)]
                    want = [] if kw.get("nolabels") else [w]
                    if got != want:
                        return "%s of %r instead of %r" % (m, got, want)
                return None
            # limits
            vals = [v for v in times(before[0].a, sc).a.reshape(-1)]
            num = [ev(it, v) for v in vals]
            norm = k.get("norm")
            if norm is None:
                return "no norm"
            got = [ev(it, norm.attrs[n]) if not isinstance(norm.attrs[n], (int, float)) else norm.attrs[n] for n in ("vmin", "vmax")]
            want = [min(num), max(num)]
            if "clim" in kw:
                want = [ev(it, x) for x in kw["clim"]]
            for n in ("lin", "log"):
                if isinstance(kw.get(n), tuple):
                    want = [ev(it, x) for x in kw[n]]
            if "vmin" in kw:
                want[0] = ev(it, kw["vmin"])
            if "vmax" in kw:
                want[1] = ev(it, kw["vmax"])
            if kw.get("lin") == 0 and "lin" in kw or kw.get("symmetric") or kw.get("sym"):
                m = max(abs(w) for w in want)
                want = [-m, m]
            log = kw.get("logscale") or kw.get("log")
            if log and want[0] <= 0:
                want[0] = want[1] / 1e4
            if norm.attrs["kind"] != ("log" if log else "lin"):
                return "a %s scale" % norm.attrs["kind"]
            if any(abs(g - w) > 1e-9 * abs(w) for g, w in zip(got, want)):
                return "colours cover %s instead of %s" % (got, want)
            if style.startswith("contour") and not log:
                lv = [ev(it, P.of(x)) for x in it.iterate(a[3])] if not isinstance(a[3], A) else [ev(it, P.of(x)) for x in a[3].a]
                n = kw.get("levels", 10)
                if len(lv) != n or any(abs(g - (want[0] + i * (want[1] - want[0]) / (n - 1))) > 1e-6 for i, g in enumerate(lv)):
                    return "levels at %s for values from %s to %s" % (lv, want[0], want[1])
            if not kw.get("mod"):
                for m, i, key in (("set_xlim", 1 if flip else 0, "x"), ("set_ylim", 0 if flip else 1, "y")):
                    w = kw.get(key) or (cr[i] if center == "node" else before[1][i].a)[[0, -1]]
                    if center == "node":
                        w = kw.get(key) or before[1][i].a[[0, -1]]
                    c = ax.get(m)
                    if len(c) != 1:
                        return "%d calls of %s" % (len(c), m)
                    g = c[0][0]
                    g = list(g[0]) if len(g) == 1 else list(g)
                    r = differ(arr(g), arr(list(w)), m + " ")
                    if r:
                        return r
            return None
        return thunk
    def place1(center, nd, slc, kw, rule):
        def thunk():
            it, ax, before, after, axes, env = go("plot1d_field", center, slc, None, kw, nd)
            if rule == "same":
                return same(before, after)
            if rule == "place":
                calls = ax.get("plot")
                if len(calls) != 1:
                    return "%d calls of plot" % len(calls)
                x, y = [plain(v) for v in calls[0][0][:2]]
                c = (before[1] if center == "node" else before[2])[0].a
                return differ(y, times(before[0].a, kw.get("scale", 1)), "values ") or differ(x, times(c, kw.get("mod", 1)), "coordinates ")
            if rule == "limits":
                for m, w in (("set_xlim", kw.get("x")), ("set_ylim", kw.get("y") or ((kw.get("vmin"), kw.get("vmax")) if "vmin" in kw or "vmax" in kw else None))):
                    c = ax.get(m)
                    if len(c) != (w is not None):
                        return "%d calls of %s" % (len(c), m)
                    if w is not None:
                        g = list(c[0][0][0]) if len(c[0][0]) == 1 else list(c[0][0])
                        for a, b in zip(g, w):
                            if (a is None) != (b is None) or a is not None and differ(a, b, ""):
                                return "%s of %s instead of %s" % (m, g, w)
                return None
            for m, w in (("set_xlabel", kw.get("xlabel") or axes[0]), ("set_ylabel", kw.get("ylabel") or kw.get("label") or "rho")):
                got = [c[0][0] for c in ax.get(m)]
                want = [] if kw.get("nolabels") else [w]
                if got != want:
                    return "%s of %r instead of %r" % (m, got, want)
            got = ax.get("plot")[0][1].get("label")
            return None if got == kw.get("label", "rho") else "the line is called %r" % (got,)
        return thunk
    FLD = [("cell", 2, None), ("node", 2, None), ("cell", 3, "z=1j"), ("cell", 3, "x=2"), ("node", 3, "y=1")]
    KW = [{}, {"scale": s}, {"mod": (mx, my)}, {"flip_plot": True}, {"flipplot": True, "scale": s, "mod": (mx, my)}]
    LIM = [{}, {"scale": s}, {"vmin": lo}, {"vmax": hi}, {"clim": (lo, hi)}, {"symmetric": True}, {"sym": True, "vmax": hi}, {"lin": 0}, {"logscale": True, "clim": (lo, hi), "masknan": False}, {"log": True, "clim": (hi, s)}, {"log": (lo, hi), "masknan": False}, {"lin": (lo, hi)}, {"log": (hi, s), "scale": s},
           {"x": (lo, hi)}, {"y": (lo, hi)}, {"flip_plot": True}, {"levels": 4}, {"clim": (9, 10)}, {"vmin": 0}, {"vmax": 0}, {"x": (0, 1), "y": (9, 10)}, {"log": (9, 10)}, {"lin": (-10, 9)}]
    LAB = [{}, {"xlabel": "right"}, {"ylabel": "up", "flip_plot": True}, {"flip_plot": True}, {"nolabels": True}, {"xlabel": "right", "ylabel": "up"}]
    show = lambda kw: ", ".join("%s=%s" % (k, kw[k]) for k in sorted(kw)) or "no options"
    for style, (center, nd, slc) in itertools.product(("pcolormesh", "pcolor", "contour", "contourf"), FLD):
        w = "%s of a %s centered field%s, " % (style, center, " at " + slc if slc else "")
        for rule, kws in (("place", KW), ("same", KW)) + ((("limits", LIM), ("labels", LAB)) if nd == 2 or style == "pcolormesh" else ()):
            for kw in kws:
                if 'levels' in kw and not style.startswith('contour'):
                    continue
                if rule == "same" and kw and not (kw.get("scale") is not None or kw.get("mod")):
                    continue
                vn.defer(rule, w + show(kw), M + ".plot2d_field", place2(style, center, nd, slc, None, dict(kw, style=style), rule))
    K1 = {"place": [{}, {"scale": s}, {"mod": mx}, {"scale": s, "mod": mx}], "same": [{}, {"scale": s}, {"mod": mx}, {"scale": s, "mod": mx}],
          "limits": [{}, {"x": (lo, hi)}, {"y": (lo, hi)}, {"vmin": lo}, {"vmax": hi}, {"vmin": lo, "vmax": hi, "x": (hi, s)}, {"vmin": 0}, {"x": (9, 10)}],
          "labels": [{}, {"xlabel": "right"}, {"ylabel": "up"}, {"label": "line"}, {"nolabels": True}]}
    for (center, nd, slc), rule in itertools.product((("cell", 1, None), ("node", 1, None), ("cell", 2, "x=1"), ("node", 3, "x=1j,z=2"), ("cell", 3, "y=0,z=1")), K1):
        for kw in K1[rule]:
            vn.defer(rule, "line of a %s centered field%s, %s" % (center, " at " + slc if slc else "", show(kw)), M + ".plot1d_field", place1(center, nd, slc, kw, rule))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 3, "interpreted functions")
