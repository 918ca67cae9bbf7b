S("c19-circle-radius", "C19",
  [("viscid/mapfield.py", "    r = np.linspace(r1, r2, n)", "    r = np.sqrt(np.linspace(r1**2, r2**2, n))")],
  "two points at different distances from the origin, and points between the ends",
  "the radius along a great circle isn't linear between the ends",
  """
  import numpy as np, viscid
  c = viscid.great_circle([1, 0, 0], [0, 3, 0], n=5)
  assert np.allclose(np.linalg.norm(c, axis=0), [1, 1.5, 2, 2.5, 3])
  """)
S("c19-theta-flip-last", "C19",
  [("viscid/mapfield.py", "    crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]\n    dslc = [slice(None)] * fld.nr_dims\n    dslc[ddat] =",
    "    crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]\n    dslc = [slice(None)] * fld.nr_dims\n    dslc[max(ddat, 1)] =")],
  "a field with theta as its first axis",
  "the values are flipped along longitude when theta is the first axis",
  """
  import numpy as np, viscid
  ph, th = np.array([10., 20, 40]), np.array([5., 60, 80, 100])
  crds = viscid.arrays2crds([th, ph], crd_type='nonuniform_spherical', crd_names=('theta', 'phi'), units=('deg', 'deg'))
  f = viscid.wrap_field(th[:, None] + 1000 * ph[None, :], crds, name='a')
  m = viscid.as_mapfield(f, order=('lat', 'lon'))
  la, lo = m.get_crds()
  assert np.allclose(m.data, (90 - la)[:, None] + 1000 * lo[None, :])
  """)
S("c19-polar-points-n", "C19",
  [("viscid/mapfield.py", "    # clist = mfld.get_clist()\n    offset = np.pi / 2\n    scale = -1 if hemisphere in ('north', 'n') else 1",
    "    # clist = mfld.get_clist()\n    offset = np.pi / 2\n    scale = -1 if hemisphere == 'north' else 1")],
  "hemisphere given by its first letter",
  "polar points of the northern hemisphere are measured from the south pole",
  """
  import numpy as np, viscid
  pts = np.array([[0.0, 10.0], [80.0, 60.0]])
  a = viscid.pts2polar_mapfield(pts, ('lon', 'lat'), hemisphere='n')
  assert np.allclose(a[1], np.deg2rad([10, 30])), a
  """)
S("c19-latlon-quarter", "C19",
  [("viscid/mapfield.py", "    quarter_circ = 90 if deg else np.pi / 2\n    half_circ = 180 if deg else np.pi\n    arr, was_single_point = _as_3xN(arr)\n    arr_sph",
    "    quarter_circ = 90 if deg else np.pi / 2\n    half_circ = 2 * np.pi / 2 if not deg or np.ndim(arr) > 1 and len(arr[0]) == 3 else 180\n    arr, was_single_point = _as_3xN(arr)\n    arr_sph")],
  "three points at a time, in degrees",
  "longitudes are shifted by pi degrees when there are three points",
  """
  import numpy as np, viscid
  p = np.array([[1.0, 0, 0], [0, 1.0, 1.0], [0, 0, 2.0]]).T
  a = viscid.cart2latlon(p)
  b = np.array([viscid.cart2latlon(p[:, i]) for i in range(3)]).T
  assert np.allclose(a, b)
  """)
