S("c22-flip-edge", "C22",
  [("viscid/calculator/ecfc.py", "SB = [SA[1], SA[0], SA[2]]", "SB = [SA[1], SA[1], SA[2]]")],
  "an edge centered field with flipped axes (mhd to gse on read)",
  "leading staggered components of a flipped field are taken from the wrong end of the cell",
  """
  import numpy as np, viscid
  n = (6, 7, 8)
  x = [np.linspace(0, 1, m) for m in n]
  d = np.random.RandomState(0).rand(3, 5, 6, 7)
  def mk(fl):
      f = viscid.wrap_field(d.copy(), viscid.arrays2crds(x), center='Edge', fldtype='vector', layout='flat')
      f.set_info(viscid.PREPROCESSED_KEY, False)
      f.set_info(viscid.STAGGER_KEY, [0, 0, 0])
      f.set_info(viscid.FLIP_KEY, fl)
      return viscid.make_ecfc_field_leading(f)
  r = mk([True, True, False])
  # x component: staggered along y (flipped) and z
  assert np.allclose(r['x'].data, d[0, 1:, :-1, 1:])
  assert np.allclose(r['y'].data, d[1, :-1, 1:, 1:])
  """)
S("c22-pad-order1", "C22",
  [("viscid/calculator/calc.py", "src_slcR[axi] = slice(ni + j -2, ni + j - 1)", "src_slcR[axi] = slice(ni - 2, ni - 1)")],
  "linear extrapolation by two or more cells at the upper end",
  "every extrapolated element after the first uses a fixed reference element, so the extension is not linear",
  """
  import numpy as np, viscid
  from viscid.calculator.calc import extend_boundaries_ndarr
  a = np.arange(5.0)
  assert np.allclose(extend_boundaries_ndarr(a, nl=2, nh=3, axes=[0], order=1), np.arange(-2.0, 8.0))
  """)
S("c22-ec2cc-numpy", "C22",
  [("viscid/calculator/ecfc.py", "cc['y'] = 0.25 * (ecy0 + ecy1 + ecy2 + ecy3)", "cc['y'] = 0.25 * (ecy0 + ecy1 + ecy2 + ecx3)")],
  "an edge centered field averaged without numexpr",
  "the y component picks up a value of the x component",
  """
  import numpy as np, viscid
  x = [np.linspace(0, 1, m) for m in (6, 7, 8)]
  d = np.random.RandomState(0).rand(3, 5, 6, 7)
  f = viscid.wrap_field(d, viscid.arrays2crds(x), center='Edge', fldtype='vector', layout='flat')
  a = viscid.ec2cc(f, force_numpy=True, bnd=False).data
  b = viscid.ec2cc(f, force_numpy=False, bnd=False).data
  assert np.allclose(a, b)
  """)
S("c22-nc2cc-uneven", "C22",
  [("viscid/coordinate.py", "        new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]\n        return type(self)(new_clist)",
    "        new_clist = [(ax, nc if nc[1] - nc[0] > 0 else nc[::-1]) for ax, nc in zip(axes, crds_nc)]\n        return type(self)(new_clist)")],
  "a node centered field on decreasing coordinates moved to cell centers",
  "coordinates of decreasing axes are reversed while the values are not",
  """
  import numpy as np, viscid
  x = [np.linspace(1, 0, 6), np.linspace(0, 1, 5)]
  f = viscid.wrap_field(np.arange(30.).reshape(6, 5), viscid.wrap_crds('nonuniform_cartesian', [('x', x[0]), ('y', x[1])]), center='Node')
  g = f.as_cell_centered()
  assert np.allclose(g.get_crd_cc('x'), x[0]), g.get_crd_cc('x')
  """)
S("c22-div-order", "C22",
  [("viscid/calculator/ecfc.py", '''        div_cc[:, :, :] = (((fcx1 - fcx0) / (xp - xm)) +
                           ((fcy1 - fcy0) / (yp - ym)) +
                           ((fcz1 - fcz0) / (zp - zm)))''', '''        div_cc[:, :, :] = (((fcx1 - fcx0) / (xp - xm)) +
                           ((fcy1 - fcy0) / (yp - ym)) +
                           ((fcz1 - fcz0) / np.max(zp - zm)))''')],
  "the numpy implementation on an axis with uneven cells",
  "the z term of the divergence uses the largest cell for all cells",
  """
  import numpy as np, viscid
  rs = np.random.RandomState(1)
  x = [np.sort(rs.rand(m)) for m in (6, 7, 8)]
  d = rs.rand(3, 5, 6, 7)
  f = viscid.wrap_field(d, viscid.arrays2crds(x), center='Face', fldtype='vector', layout='flat')
  assert np.allclose(viscid.div_fc(f, force_numpy=True, bnd=False).data, viscid.div_fc(f, bnd=False).data)
  """)
