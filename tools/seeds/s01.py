S("c01-resample-endpoint", "C01",
  [("viscid/calculator/calc.py", "            for j in range(nr_sdims):\n                newline[j, :] = interp1d(sold, line[j, :], kind=kind)(snew)",
    "            pts = np.asarray(line)\n            pts[:, -1] = np.where(np.abs(pts[:, -1]) < 1e-12, 0.0, pts[:, -1])\n            for j in range(nr_sdims):\n                newline[j, :] = interp1d(sold, pts[j, :], kind=kind)(snew)")],
  "resampling a line whose last point has a coordinate smaller than 1e-12",
  "resample_lines cleans the end point of the caller's line in place through an alias",
  """
  import numpy as np, viscid
  l = np.array([[0., .1, .2], [0.1, 0.7, 1e-14], [0.3, 0.9, 1/3.]])
  k = l.copy()
  viscid.resample_lines([l], 2)
  assert (l == k).all(), l - k
  """)

S("c01-trace-opts", "C01",
  [("viscid/calculator/separator.py", "        trace_opts = dict(trace_opts)", "        trace_opts = trace_opts or dict()")],
  "passing trace options to the separator tools and using the same dictionary again",
  "the caller's trace_opts dictionary is filled with defaults in place",
  """
  from viscid.calculator import separator
  o = {'ibound': 3.0}
  separator._prep_trace_opt_defaults(o)
  assert o == {'ibound': 3.0}, o
  """)

S("c03-seed-dtype", "C03",
  [("viscid/seed.py", "        if self._points is not None:\n            return self._points\n        pts = self._make_3d_points()\n        if self._cache:\n            self._points = pts\n        return pts",
    "        if self._points is not None:\n            return self._points\n        pts = self._make_3d_points()\n        if self._cache:\n            self._points = pts\n        self.dtype = pts.dtype\n        return pts")],
  "a generator whose points come out in another precision than the one asked for; the second call differs",
  "asking a seed generator for its points changes its precision setting",
  """
  import numpy as np, viscid
  for s in (viscid.Line([0, 0, 0], [1, 1, 1], 5, dtype='f4'),
            viscid.Sphere([0, 0, 0], r=1.0, ntheta=4, nphi=4),
            viscid.Sphere([0, 0, 0], r=1.0, ntheta=4, nphi=4, dtype='f4'),
            viscid.Plane([0, 0, 0], [0, 0, 1], [1, 0, 0], 2, 2, dtype='f4')):
      d0 = s.dtype
      s.get_points()
      assert str(s.dtype) == str(d0), (d0, s.dtype)
  """)

S("c04-follow-opts", "C04",
  [("viscid/calculator/calc.py", "def resample_lines(lines, factor=1, kind=\"linear\"):", "_LINSPACES = {}\n\ndef resample_lines(lines, factor=1, kind=\"linear\"):"),
   ("viscid/calculator/calc.py", "        snew = np.linspace(0, 1, nnew)\n", "        snew = _LINSPACES.setdefault(nold, np.linspace(0, 1, nnew))\n        newline = newline[:, :len(snew)]\n")],
  "resampling lines of the same length twice in one process with different factors",
  "a module level cache keyed only by the line length hands out the sampling of an earlier call",
  """
  import numpy as np, viscid
  l = np.array([[0., .1, .2], [0.1, 0.7, 0.3], [0.3, 0.9, 1/3.]])
  a = viscid.resample_lines([l], 2)[0].shape
  b = viscid.resample_lines([l], 4)[0].shape
  assert a == (3, 5) and b == (3, 9), (a, b)
  """)

S("c05-logfile", "C05",
  [("viscid/readers/ggcm_logfile.py", "        with open(self.fname, 'r') as f:", "        f = open(self.fname, 'r')\n        if True:")],
  "a log file that is read while the number of open files is limited, or that is malformed",
  "the log file is never closed explicitly",
  """
  import sys, warnings, gc
  open('x.log', 'w').write('\\n'.join(['junk'] * 50))
  from viscid.readers import ggcm_logfile
  warnings.simplefilter('error', ResourceWarning)
  bad = []
  sys.unraisablehook = lambda a: bad.append(a.exc_value)
  try:
      l = ggcm_logfile.GGCMLogFile('x.log')
  except Exception as e:
      print(repr(e)); del e
  gc.collect()
  assert not bad, bad
  """)

S("c02-hdf5-axes", "C02",
  [("viscid/grid.py", "        if fld_names is None:\n            fld_names = self.field_names\n        fld_list", "        if fld_names is None:\n            fld_names = self.field_names\n        elif 'time' in fld_names:\n            fld_names.remove('time')\n        fld_list")],
  "asking for a data frame with a list of names that includes 'time'",
  "Grid.to_dataframe removes an entry from the caller's list of names",
  """
  import sys, types, numpy as np, viscid
  try:
      import pandas
  except ImportError:
      m = types.ModuleType('pandas')
      class DF(dict):
          def insert(self, i, k, v):
              self[k] = v
      m.DataFrame = DF
      sys.modules['pandas'] = m
  from viscid import grid
  x = np.linspace(0, 1, 4)
  f = viscid.zeros([x, x, x], name='f')
  g = grid.Grid()
  g.add_field(f)
  names = ['time', 'f']
  try:
      g.to_dataframe(names)
  except KeyError:
      pass
  assert names == ['time', 'f'], names
  """)
