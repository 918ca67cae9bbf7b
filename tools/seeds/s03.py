S("c20-rk45-c51", "C20",
  [("viscid/cython/integrate.pyx", "cdef real_t c51 = 439.0 / 216.0", "cdef real_t c51 = 439.0 / 226.0")],
  "the adaptive rk45 integrator with a step size large enough that truncation error matters",
  "a Butcher coefficient of the fifth stage is wrong, rk45 loses its order",
  """
  import numpy as np, viscid
  x = np.linspace(-3, 3, 241)
  f = viscid.zeros([x, x, np.linspace(-1, 1, 3)], center='node', nr_comps=3, layout='interlaced')
  X, Y, Z = f.get_crds(shaped=True)
  f['x'] = -Y + 0 * X + 0 * Z
  f['y'] = X + 0 * Y + 0 * Z
  def err(h):
      l, _ = viscid.calc_streamlines(f, np.array([[1.3], [0.0], [0.0]]), ds0=h, smallest_ds=h, largest_ds=h,
                                     max_error=1e9, method=6, stream_dir=viscid.cython.DIR_FORWARD, max_length=6 * h, output=viscid.cython.OUTPUT_STREAMLINES,
                                     ibound=0.1)
      l = np.asarray(l[0])
      return np.abs(np.hypot(l[0], l[1]) - 1.3).max()
  e = err(0.4)
  assert e < 3e-4, e
  """)
S("c20-euler1a-retry", "C20",
  [("viscid/cython/integrate.pyx", "        if _ts_ctrl(ds, err_estimate, max_error, smallest_ds, largest_ds):\n            continue",
    "        if _ts_ctrl(ds, err_estimate, max_error, smallest_ds, largest_ds):\n            x1[0], x1[1], x1[2] = x3[0], x3[1], x3[2]\n            continue")],
  "adaptive Euler steps that are rejected and repeated (start step larger than the error bound allows)",
  "a rejected euler1a step is repeated from the point reached by the backward step instead of the start point",
  """
  import numpy as np, viscid
  x = np.linspace(-3, 3, 61)
  f = viscid.zeros([x, x, np.linspace(-1, 1, 3)], center='node', nr_comps=3, layout='interlaced')
  X, Y, Z = f.get_crds(shaped=True)
  f['x'] = -Y + 0 * X + 0 * Z
  f['y'] = X + 0 * Y + 0 * Z
  l, _ = viscid.calc_streamlines(f, np.array([[1.0], [0.0], [0.0]]), ds0=1.0, max_error=1e-2, smallest_ds=1e-6, largest_ds=10.,
                                 method=4, stream_dir=viscid.cython.DIR_FORWARD, max_length=0.5, output=viscid.cython.OUTPUT_STREAMLINES, ibound=0.01)
  l = np.asarray(l[0]); d = l[:, 1] - l[:, 0]
  # an euler step leaves the start along the field there (+y)
  assert abs(d[0]) < 1e-9 and d[1] > 0, d
  """)
S("c20-rk12-time", "C20",
  [("viscid/cython/integrate.pyx", "        dt[0] += h / (w1 * kmag1 + w2 * kmag2)\n\n    return 0\n\ncdef int _c_rk45",
    "        dt[0] += h / (u1 * kmag1 + w2 * kmag2)\n\n    return 0\n\ncdef int _c_rk45")],
  "tracing with rk12 and a limit on the travel time",
  "the travel time of rk12 mixes the first and second order weights and is half as long as it should be",
  """
  import numpy as np, viscid
  x = np.linspace(-30, 30, 61)
  f = viscid.zeros([x, x, np.linspace(-1, 1, 3)], center='node', nr_comps=3, layout='interlaced')
  f['x'] = 2.0
  l, _ = viscid.calc_streamlines(f, np.array([[0.0], [0.0], [0.0]]), ds0=0.1, max_error=1e-2, smallest_ds=1e-1, largest_ds=0.1,
                                 method=5, stream_dir=viscid.cython.DIR_FORWARD, max_t=3.0, output=viscid.cython.OUTPUT_STREAMLINES, ibound=0.0)
  l = np.asarray(l[0])
  assert abs(l[0, -1] - 6.0) < 0.5, l[:, -1]
  """)
S("c21-edge-comp", "C21",
  [("viscid/cython/cycalc.pyx", "(fld.crds[m, d, ind + 1] - fld.crds[m, d, ind]))", "(fld.crds[0, d, ind + 1] - fld.crds[0, d, ind]))")],
  "linear interpolation of an edge or face centred vector field on a nonuniform grid",
  "the cell width used for the weight is the first component's, also for the other components",
  """
  import numpy as np, viscid
  x = np.cumsum(np.linspace(0.2, 2.0, 12)); y = x + 0.0; z = x + 0.0
  f = viscid.zeros([x, y, z], center='face', nr_comps=3, layout='interlaced')
  xc, yc, zc = f.get_crds_vector(shaped=True)
  for i in range(3):
      f.data[..., i] = 2.0 * xc[i] + 3.0 * yc[i] - zc[i]
  p = np.array([[4.0, 5.5], [3.3, 6.1], [4.7, 5.2]])
  v = viscid.interp_trilin(f, p, wrap=False)
  want = 2 * p[0] + 3 * p[1] - p[2]
  assert np.allclose(v, want[:, None]), (v, want)
  """)
S("c21-cached-restart", "C21",
  [("viscid/cython/cycalc.pyx", "            for i in range(startidx - 1, -1, -1):\n                if fld.crds[m, d, i] <= value:",
    "            for i in range(startidx - 1, -1, -1):\n                if fld.crds[m, d, i] <= value or startidx - i > 8:")],
  "a nonuniform grid and a query point many cells to the left of the previous one",
  "the backward search from the remembered index gives up after eight cells",
  """
  import numpy as np, viscid
  x = np.cumsum(np.linspace(0.1, 1.0, 30))
  f = viscid.zeros([x, x, x], center='node')
  X, Y, Z = f.get_crds(shaped=True)
  f.data[...] = X**2 + 2 * Y + 3 * Z
  p = np.array([[x[28] - .01, x[3], x[12]], [x[10], x[11], x[12]], [x[10], x[11], x[12]]])
  v = viscid.interp_trilin(f, p, wrap=False)
  assert abs(v[1] - (x[3]**2 + 2 * x[11] + 3 * x[11])) < 1e-9, v
  """)
S("c21-nearest-last", "C21",
  [("viscid/cython/cycalc.pyx", "        d1 = fabs(fld.crds[m, d, preceeding_ind] - value)", "        d1 = fabs(fld.crds[m, d, preceeding_ind] - value) if preceeding_ind < fld.nm2[d] else 0.0")],
  "nearest neighbour interpolation of a point in the last cell",
  "a point in the last cell always gets the value of the last but one node",
  """
  import numpy as np, viscid
  x = np.linspace(0, 5, 6)
  f = viscid.zeros([x, x, x], center='node')
  X, Y, Z = f.get_crds(shaped=True)
  f.data[...] = X + 0 * Y + 0 * Z
  v = viscid.interp_nearest(f, np.array([[4.9], [2.0], [2.0]]), wrap=False)
  assert v[0] == 5.0, v
  """)
