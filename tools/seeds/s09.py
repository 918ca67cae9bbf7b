S("c31-mesh-pole", "C31",
  [("viscid/seed.py", "        rpt_idx = [0, -1]\n", "        rpt_idx = [0, 0]\n")],
  "a sphere down to the lower pole, theta varying values",
  "the value of the mesh vertex at the lower pole is the mean around the upper pole",
  """
  import numpy as np, viscid
  s = viscid.Sphere(r=2.0, ntheta=4, nphi=5)
  z = s.get_points()[2]
  v, a = s.wrap_mesh(z)
  assert np.allclose(a[:, -1], z.min()) and np.allclose(a[:, 0], z.max()), a
  """)
S("c31-patch-radius", "C31",
  [("viscid/seed.py", "        if not p1_is_vector:\n            p1 = p1 - p0\n\n        if r:\n            p1 = p1 * (r / np.linalg.norm(p1))\n        else:\n            r = np.linalg.norm(p1)\n",
    "        if r:\n            p1 = p1 * (r / np.linalg.norm(p1))\n        else:\n            r = np.linalg.norm(p1)\n\n        if not p1_is_vector:\n            p1 = p1 - p0\n")],
  "SphericalPatch around a center away from the origin, p1 given as a point",
  "the length is taken (or set) before the center is subtracted, so the direction or radius is wrong",
  """
  import numpy as np, viscid
  s = viscid.SphericalPatch(p0=[5.0, 0, 0], p1=[5.0, 0, 2.0], max_alpha=20, max_beta=20, nalpha=3, nbeta=3, p1_is_vector=False)
  d = s.get_points() - np.array([[5.0], [0], [0]])
  assert np.allclose(np.linalg.norm(d, axis=0), 2.0)
  """)
S("c31-plane-limits", "C31",
  [("viscid/seed.py", "        if not isinstance(len_m, (list, tuple)):\n            len_m = [-0.5 * len_m, 0.5 * len_m]\n\n        self.p0 = p0",
    "        if not isinstance(len_m, (list, tuple)):\n            len_m = [-0.5 * len_m, 0.5 * len_m]\n        len_l, len_m = [sorted(lm) for lm in (len_l, len_m)]\n\n        self.p0 = p0")],
  "limits of a plane given from high to low",
  "the points run from low to high instead of as given",
  """
  import numpy as np, viscid
  p = viscid.Plane(len_l=[1.0, -1.0], len_m=[0.0, 2.0], nl=3, nm=2)
  assert np.allclose(p.get_points()[0], [1, 1, 0, 0, -1, -1]), p.get_points()
  """)
S("c31-volume-uv", "C31",
  [("viscid/seed.py", "        ind = self._get_uv_xind()\n        val = self.xl[ind]\n", "        ind = self._get_uv_xind()\n        val = 0.5 * (self.xl[ind] + self.xh[ind])\n")],
  "a volume that is one point thick, with xl != xh in that direction",
  "2d points are put in the middle of the volume, the seeds are at its lower face",
  """
  import numpy as np, viscid
  v = viscid.Volume(xl=(0, 0, 0), xh=(1, 2, 4), n=(3, 1, 2))
  c = v.as_uv_coordinates()
  X, Y = [a.ravel() for a in np.meshgrid(*c.get_crds(), indexing='ij')]
  assert np.allclose(v.uv_to_3d(np.array([X, Y])), v.get_points())
  """)
S("c31-sphere-seam", "C31",
  [("viscid/seed.py", "        # repeat last phi to close the seam at phi = 0 / 2 pi\n        if self._spans_phi and not self._resolve_phi_endpoint():", "        # repeat last phi to close the seam at phi = 0 / 2 pi\n        if self._spans_phi and self.phi_endpoint is not True and self.philim[0] == 0:")],
  "a full circle in phi from -180 to 180 degrees",
  "mesh values lack the row that closes the seam, so they do not fit the vertices",
  """
  import numpy as np, viscid
  s = viscid.Sphere(r=2.0, ntheta=4, nphi=5, philim=(-180, 180))
  v, a = s.wrap_mesh(s.get_points()[2])
  assert v.shape[1:] == a.shape
  """)
