S("c15-curl-step", "C15",
  [("viscid/calculator/calc.py", "    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -", "    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[1]) -")],
  "different steps in y and z",
  "the y component of the curl at a point divides a z difference by the y step",
  """
  import numpy as np, viscid
  b = viscid.zeros([np.linspace(-1, 1, n) for n in (11, 12, 13)], center='cell', nr_comps=3, layout='interlaced')
  X, Y, Z = b.get_crds(shaped=True)
  b['x'] = 2 * Z + 0 * X + 0 * Y
  c = viscid.curl_at_point(b, 0.1, 0.2, 0.1, dx=0.1, dy=0.2, dz=0.3)
  assert np.allclose(c, [0, 2, 0], atol=1e-5), c
  """)
S("c15-last-step", "C15",
  [("viscid/calculator/calc.py", "            i0 = min(inds[i], len(crd) - 2)\n            dcrd[i] = crd[i0 + 1] - crd[i0]",
    "            i0 = min(inds[i], len(crd) - 2)\n            dcrd[i] = crd[i0 + 1] - crd[min(i0, len(crd) - 3)]")],
  "no step given and the point nearest to one of the last two cells",
  "the grid step near the upper end of an axis spans two cells",
  """
  import numpy as np, viscid
  from viscid.calculator.calc import local_vector_points
  b = viscid.zeros([np.linspace(0, 1, n) for n in (11, 11, 11)], center='cell', nr_comps=3, layout='interlaced')
  for p in (0.5, 0.84, 0.94):
      assert np.allclose(local_vector_points(b, 0.5, 0.5, p)[2], 0.1)
  """)
S("c15-multi-line-mag", "C15",
  [("viscid/calculator/calc.py", "                mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)\n                values = 0.5 * (mag[:-1] + mag[1:])",
    "                mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)\n                values = np.linalg.norm(0.5 * (fld_on_verts[start:stop - 1] + fld_on_verts[start + 1:stop]), axis=1)")],
  "reduction mag on a vector field that changes direction along a segment",
  "the magnitude of the mean is used for the mean of the magnitudes",
  """
  import numpy as np, viscid
  b = viscid.zeros([np.linspace(-1, 1, 21)] * 3, center='cell', nr_comps=3, layout='interlaced')
  X, Y, Z = b.get_crds(shaped=True)
  b['x'] = np.sign(X) + 0 * Y + 0 * Z
  line = np.array([[-0.5, 0.5], [0.1, 0.1], [0.1, 0.1]])
  r = viscid.integrate_along_line(line, b, reduction='mag')
  assert np.allclose(r, 1.0), r
  """)
S("c15-psi-rev", "C15",
  [("viscid/calculator/plasma.py", "A[:, j] = A[:, j + 1] + dz[j] * 0.5 * (hy[:, j + 1] + hy[:, j])", "A[:, j] = A[:, j + 1] + dz[j] * 0.5 * (hy[-1:, j + 1] + hy[:, j])")],
  "the flux function started from the opposite corner (gse output)",
  "the second pass uses the last row for all rows",
  """
  import numpy as np, viscid
  b = viscid.zeros([np.linspace(0, 1, 9), np.linspace(0, 1, 8)], center='node', nr_comps=3, layout='interlaced')
  X, Y = b.get_crds(shaped=True)
  b['x'] = X + 0 * Y
  b['y'] = -Y + 0 * X
  a, c = viscid.calc_psi(b).data, viscid.calc_psi(b, rev=True).data
  d = a - c
  assert np.allclose(d, d[0, 0]), np.ptp(d)
  """)
