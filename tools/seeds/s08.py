S("c18-face-crds", "C18",
  [("viscid/dipole.py", "        for i, cn in enumerate(\"xyz\"):\n            _X, _Y, _Z = _crd_lst[i]\n            _XI = _crd_lst[i][i]\n            _mi = m[i]\n            rsq = ne.evaluate",
    "        for i, cn in enumerate(\"xyz\"):\n            _X, _Y, _Z = _crd_lst[i]\n            _XI = _crd_lst[(i + 1) % 3][i]\n            _mi = m[i]\n            rsq = ne.evaluate")],
  "a face or edge centered field",
  "on staggered grids the numerator uses the points of another component",
  """
  import numpy as np, viscid
  b = viscid.zeros([np.linspace(1, 2, 5)] * 3, center='face', nr_comps=3, layout='interlaced')
  viscid.fill_dipole(b, m=[0.3, 0.2, -1])
  X, Y, Z = [c[0] for c in b.get_crds_vector(shaped=True)]
  pts = np.array(np.broadcast_arrays(X, Y, Z)).reshape(3, -1).T
  d = viscid.calc_dip(pts, m=[0.3, 0.2, -1])
  assert np.allclose(b.data[..., 0].ravel(), d[:, 0])
  """)
S("c18-mask-edge", "C18",
  [("viscid/dipole.py", "        mask = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)\n        if fld.nr_comps:", "        mask = np.bitwise_and(rsq > rmin**2, rsq < rmax**2)\n        if fld.nr_comps:")],
  "a grid point at distance rmin exactly",
  "points at distance rmin are left out of the mask, the origin with rmin=0 too",
  """
  import numpy as np, viscid
  f = viscid.zeros([np.arange(-2, 3.0)] * 3, center='node')
  m = viscid.make_spherical_mask(f, rmin=0.0, rmax=1.5)
  assert m.data[2, 2, 2] and m.data[1, 2, 2] and not m.data[0, 2, 2]
  """)
S("c18-map-hemisphere", "C18",
  [("viscid/dipole.py", "    root = np.sign(lsrlp[2:3, :])", "    root = np.sign(lsrlp[2:3, :].mean()) + 0 * lsrlp[2:3, :]")],
  "points of both hemispheres in one call",
  "points are mapped to the hemisphere most of the points are in",
  """
  import numpy as np, viscid
  p = np.array([[4.0, 0, 1], [4.0, 0, 2], [4.0, 0, -1]]).T
  q = viscid.dipole_map(p, crd_system='sm')
  assert (np.sign(q[2]) == [1, 1, -1]).all(), q
  """)
S("c18-strength-once", "C18",
  [("viscid/dipole.py", "    if strength is not None:\n        m = (strength / np.linalg.norm(m)) * m\n    mx, my, mz = m  # pylint: disable=W0612\n\n    m = m.reshape(1, 3)",
    "    mx, my, mz = m  # pylint: disable=W0612\n    if strength is not None:\n        m = (strength / np.linalg.norm(m)) * m\n\n    m = m.reshape(1, 3)")],
  "strength given to calc_dip",
  "only one of the two terms of the dipole is rescaled",
  """
  import numpy as np, viscid
  a = viscid.calc_dip([[1.0, 2, 3]], m=[0, 0, -1.0], strength=5.0)
  b = viscid.calc_dip([[1.0, 2, 3]], m=[0, 0, -5.0])
  assert np.allclose(a, b)
  """)
