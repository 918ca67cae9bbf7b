S("c16-yzx-singular", "C16",
  [("viscid/rotation.py", "            s2c1, c2c1 = R[..., 2, 1], R[..., 1, 1]\n            s0p2, c0p2 = - R[..., 1, 2], R[..., 2, 2]",
    "            s2c1, c2c1 = R[..., 2, 1], R[..., 1, 1]\n            s0p2, c0p2 = R[..., 1, 2], R[..., 2, 2]")],
  "Euler angles of a matrix in gimbal lock with axis order yzx",
  "the combined angle of a singular yzx rotation has the wrong sign",
  """
  import numpy as np, viscid
  from viscid import rotation as r
  a = np.array([0.3, np.pi / 2, 0.4])
  R = r.angle2rot(a, 'yzx')
  R2 = r.angle2rot(r.rot2angle(R, 'yzx'), 'yzx')
  assert np.allclose(R, R2, atol=1e-6), (R, R2)
  """)

S("c16-quat-stack-norm", "C16",
  [("viscid/rotation.py", "    R = np.empty([len(q), 3, 3], dtype=np.double)\n\n    w, x, y, z",
    "    q = np.where(q[:, :1] < 0.0, q * [[-1, -1, -1, 1]], q)\n    R = np.empty([len(q), 3, 3], dtype=np.double)\n\n    w, x, y, z")],
  "a quaternion with a negative scalar part",
  "quaternions are moved to the hemisphere w >= 0 without negating the last component",
  """
  import numpy as np
  from viscid import rotation as r
  q = np.array([-0.5, 0.5, 0.5, 0.5])
  assert np.allclose(r.quat2rot(q), r.quat2rot(-q))
  """)

S("c17-reverse-cache", "C17",
  [("viscid/cotr.py", "            self._xform_cache[xform] = mat\n            self._xform_cache[xform_rev] = mat.T",
    "            self._xform_cache[xform] = mat\n            self._xform_cache[xform_rev] = mat if len(emat_lst) > 3 else mat.T")],
  "asking one Cotr object for a long chain (mag -> sm) and then for its reverse",
  "the reverse of a chain of more than three elementary transforms is cached untransposed",
  """
  import numpy as np, viscid
  c = viscid.Cotr('2004-03-07T12:34:56', notilt1967=False)
  for a in ('gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd'):
      for b in ('gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd'):
          m = np.dot(c.get_transform_matrix(a, b), c.get_transform_matrix(b, a))
          assert np.allclose(m, np.eye(3)), (a, b, m)
  """)

S("c17-tilt-when-gsm-set", "C17",
  [("viscid/cotr.py", "            dip_tilt = 0.0 if dip_tilt is None else dip_tilt\n            dip_gsm = 0.0 if dip_gsm is None else dip_gsm",
    "            dip_tilt = 0.0 if dip_tilt is None else dip_tilt\n            dip_gsm = dip_tilt * 0.0 if not dip_gsm or not dip_tilt else dip_gsm")],
  "a dipole given by its gsm angle alone",
  "dip_gsm is dropped when dip_tilt is zero or not given",
  """
  import numpy as np, viscid
  c = viscid.Cotr('2004-03-07T12:34:56', dip_gsm=20.0)
  assert np.allclose(c.get_dipole_angles()[1], 20.0), c.get_dipole_angles()
  m = c.transform('gse', 'gsm', [0, 0, 1.0])
  assert abs(m[2] - np.cos(np.deg2rad(20.0))) < 1e-9, m
  """)
