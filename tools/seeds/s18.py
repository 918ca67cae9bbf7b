PL = """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import viscid
from viscid.plot import vpyplot as vlt
def fld(n=(6, 4), center="cell"):
    f = viscid.zeros([np.linspace(1, 2, n[0]) ** 2, np.linspace(5, 6, n[1]) ** 2], center=center, name="rho")
    f.data[...] = -3.0 - np.arange(f.data.size).reshape(f.shape)
    return f
fig, ax = plt.subplots()
"""
import textwrap as _t
def D(s): return PL + _t.dedent(s)
VP = "viscid/plot/vpyplot.py"
S("c39-symmetric-positive", "C39", [(VP, "maxval = max(abs(vmin), abs(vmax))\n", "maxval = abs(max(vmin, vmax))\n")],
  "a symmetric colour scale for values whose largest magnitude is negative",
  "the symmetric colour scale is too narrow and clips the negative values", D("""
  p, _ = vlt.plot2d_field(fld(), ax=ax, lin=0)
  assert (p.norm.vmin, p.norm.vmax) == (-17.0, 17.0), (p.norm.vmin, p.norm.vmax)
  """))
S("c39-flip-limits", "C39", [(VP, "plot_kwargs['y'] = (fld.xl[0], fld.xh[0])", "plot_kwargs['y'] = (fld.xl[1], fld.xh[1])")],
  "a plot with flip_plot of a field whose axes have different limits",
  "the vertical axis of a flipped plot has the limits of the other axis", D("""
  vlt.plot2d_field(fld(), ax=ax, flip_plot=True, axis="none")
  assert np.allclose(ax.get_ylim(), (1, 4)), ax.get_ylim()
  """))
S("c39-levels-endpoint", "C39", [(VP, "levels = np.linspace(vmin, vmax, levels)", "levels = np.linspace(vmin, vmax, levels, endpoint=False)")],
  "a contour plot with a number of levels",
  "the highest values of a field are left out of a filled contour plot", D("""
  p, _ = vlt.plot2d_field(fld(), ax=ax, style="contourf", levels=5, colorbar=False)
  assert len(p.levels) == 5 and p.levels[0] == -17 and p.levels[-1] == -3, p.levels
  """))
S("c39-line-left-edge", "C39", [(VP, "x = np.concatenate([blk.get_crd_cc(namex) for blk in fld.patches])", "x = np.concatenate([blk.get_crd_nc(namex)[:-1] for blk in fld.patches])")],
  "a line plot of a cell centered field", "values of cells are drawn at the left edges of the cells", D("""
  f = fld()
  f = f["y=0"]
  vlt.plot1d_field(f, ax=ax)
  assert np.allclose(ax.lines[0].get_xdata(), f.get_crd_cc("x"))
  """))
S("c39-clim-short", "C39", [(VP, "        norm_dict['clim'][:len(clim)] = clim\n", "        norm_dict['clim'] = sorted(norm_dict['clim'][len(clim):] + list(clim), key=str)\n")],
  "limits of colours given as numbers whose texts sort the other way round",
  "the limits of the colours are exchanged", D("""
  p, _ = vlt.plot2d_field(fld(), ax=ax, clim=(9.0, 10.0))
  assert (p.norm.vmin, p.norm.vmax) == (9.0, 10.0), (p.norm.vmin, p.norm.vmax)
  """))
S("c39-contour-mod", "C39", [(VP, "            Y[0], Y[-1] = Ync[0], Ync[-1]\n", "            Y[0], Y[-1] = Ync[0], Ync[-1]\n            X, Y = np.linspace(X[0], X[-1], len(X)), np.linspace(Y[0], Y[-1], len(Y))\n")],
  "a contour plot of a cell centered field on stretched coordinates",
  "a contour plot shows values on an even grid although the coordinates are not", D("""
  got = []
  ax.contourf = lambda X, Y, *a, **k: (got.extend([X, Y]), type(ax).contourf(ax, X, Y, *a, **k))[1]
  f = fld((8, 9))
  cc = [x.copy() for x in f.get_crds_cc()]
  vlt.plot2d_field(f, ax=ax, style="contourf", colorbar=False)
  assert np.allclose(got[0][1:-1], cc[0][1:-1]) and np.allclose(got[1][1:-1], cc[1][1:-1])
  """))
