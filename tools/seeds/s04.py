PRE = """
  import numpy as np, viscid
  rs = np.random.RandomState(3)
  x, y, z = [np.sort(rs.rand(n)) * 4 for n in (7, 8, 9)]
"""
S("c13-amr-reflected-mod", "C13",
  [("viscid/amr_field.py", 'return self.wrap_field_method("__rtruediv__", other)', 'return self.wrap_field_method("__truediv__", other)')],
  "a number or array divided by an AMR field (the reflected operator)",
  "1 / amr gives amr / 1",
  """
  import numpy as np, viscid
  from viscid.amr_field import AMRField
  f = [viscid.full(viscid.arrays2crds([np.linspace(i, i + 1, 4), np.linspace(0, 1, 4)]), 2.0 + i) for i in range(2)]
  a = AMRField(f, None)
  r = 1.0 / a
  assert np.allclose(r.patches[0].data, 0.5) and np.allclose(r.patches[1].data, 1 / 3.), r.patches[1].data
  """)
S("c13-amr-last-patch", "C13",
  [("viscid/amr_field.py", "                    except IndexError:\n                        other[j] = arg.patches[0]",
    "                    except IndexError:\n                        other[j] = arg.patches[0]\n                        is_field[j] = False")],
  "an operation of an AMR field of at least three patches with an AMR field of a single patch",
  "after the first missing patch the whole single patch field is handed on instead of its patch",
  """
  import numpy as np, viscid
  from viscid.amr_field import AMRField
  f = [viscid.full(viscid.arrays2crds([np.linspace(i, i + 1, 4), np.linspace(0, 1, 4)]), 2.0 + i) for i in range(4)]
  a = AMRField(f, None)
  b = AMRField(f[:1], None)
  r = a * b
  for i in range(4):
      assert r.patches[i].data.shape == (3, 3) or r.patches[i].data.shape == (4, 4), r.patches[i].data.shape
      assert np.allclose(r.patches[i].data, 2.0 * (2 + i))
  """)
S("c13-ior-op", "C13",
  [("viscid/field.py", "        return self.wrap(self.data.__rfloordiv__(self._ow(other)), other=other)",
    "        return self.wrap(self.data.__rtruediv__(self._ow(other)) // 1 if np.isscalar(other) else self.data.__floordiv__(self._ow(other)), other=other)")],
  "an ndarray or list on the left of // with a field on the right, reached through __rfloordiv__",
  "the operands of // are exchanged for non scalar left operands",
  """
  import numpy as np, viscid
  f = viscid.full([4, 5], 2.0)
  r = f.__rfloordiv__(np.full(f.shape, 7.0))
  assert np.allclose(r.data, 3.0), r.data
  """)
S("c14-curl-bnd", "C14",
  [("viscid/calculator/calc.py", "    curl_y = -(vzpx - vzmx) / (xp - xm) + (vxpz - vxmz) / (zp - zm)\n    curl_z = (vypx - vymx) / (xp - xm) - (vxpy - vxmy) / (yp - ym)\n\n    return field.wrap_field([curl_x",
    "    curl_y = -(vzpx - vzmx) / (xp - xm) + (vxpz - vxmz) / (zp - zm)\n    curl_z = (vypx - vymx) / (xp - xm) - (vxpy - vxmy) / (xp - xm)\n\n    return field.wrap_field([curl_x")],
  "the numpy implementation of curl on a grid whose x and y spacings differ",
  "curl_z of the numpy implementation divides the y difference by the x spacing",
  PRE + """
  f = viscid.zeros([x, y, z], center='node', nr_comps=3, layout='interlaced')
  X, Y, Z = f.get_crds_nc(shaped=True)
  f['x'] = -2 * Y + 0 * X + 0 * Z
  f['y'] = 3 * X + 0 * Y + 0 * Z
  c = viscid.curl(f, bnd=False, preferred='numpy', only=True)
  assert np.allclose(c['z'].data, 5.0), c['z'].data.ravel()[:4]
  """)
S("c14-div-node-crds", "C14",
  [("viscid/calculator/necalc.py", '    div_arr = ne.evaluate("(vxp-vxm)/(xp-xm) + (vyp-vym)/(yp-ym) + "\n                          "(vzp-vzm)/(zp-zm)")',
    '    if fld.iscentered("Node"):\n        zp, zm = zp[:, :, :1], zm[:, :, :1]\n    div_arr = ne.evaluate("(vxp-vxm)/(xp-xm) + (vyp-vym)/(yp-ym) + "\n                          "(vzp-vzm)/(zp-zm)")')],
  "the numexpr divergence of a node centered field on a grid that is nonuniform in z",
  "the spacing of the first cells is used for all z differences",
  PRE + """
  f = viscid.zeros([x, y, z], center='node', nr_comps=3)
  X, Y, Z = f.get_crds_nc(shaped=True)
  f['z'] = 3 * Z + 0 * X + 0 * Y
  c = viscid.div(f, bnd=False, preferred='numexpr', only=True)
  assert np.allclose(c.data, 3.0), c.data.ravel()[:8]
  """)
S("c14-normalize-interlaced", "C14",
  [("viscid/calculator/necalc.py", "    a = fld_a.as_flat().data\n", "    a = fld_a.data if fld_a.shape[0] == 3 else fld_a.as_flat().data\n")],
  "normalizing an interlaced vector field whose first axis has three points (2D slabs)",
  "the interlaced array is divided with the wrong axes lined up",
  """
  import numpy as np, viscid
  x = np.linspace(0, 1, 3)
  f = viscid.zeros([x, np.linspace(0, 1, 4), np.linspace(0, 1, 5)], center='node', nr_comps=3, layout='interlaced')
  f.data[...] = np.random.RandomState(0).rand(*f.shape) + 0.2
  n = viscid.normalize(f, preferred='numexpr', only=True)
  v = [n[c].data for c in 'xyz']
  for c, g in zip('xyz', v):
      assert np.allclose(g, f[c].data / np.sqrt((f.data**2).sum(axis=-1)))
  """)
S("c23-keep-last", "C23",
  [("viscid/coordinate.py", "                if loc_ind == -1:\n                    crd = crd_nc[-1:]\n                    slc = slice(-1, None)",
    "                if loc_ind == -1:\n                    crd = crd_nc[:1]\n                    slc = slice(-1, None)")],
  "slice_keep with the index -1 on a node centered field",
  "the values are those of the last plane but the coordinate is that of the first",
  PRE + """
  f = viscid.zeros([x, y, z], center='node')
  X, Y, Z = f.get_crds_nc(shaped=True)
  f.data[...] = Y + 0 * X + 0 * Z
  g = f.slice_keep('y=-1')
  assert np.allclose(g.data, g.get_crds_nc(shaped=True)[1])
  """)
S("c23-back-stop", "C23",
  [("viscid/sliceutil.py", "                    if val_endpoint:\n                        if ustop > 0:\n                            ustop -= 1",
    "                    if val_endpoint:\n                        if ustop > 1:\n                            ustop -= 1")],
  "a reversed range of locations that ends between the first two coordinates",
  "one element too many (the one outside of the range) is selected",
  PRE + """
  f = viscid.zeros([x, y, z], center='node')
  s = 0.5 * (x[0] + x[1])
  g = f['x={0}j:{1}j:-1'.format(x[4] + 1e-3, s)]
  assert np.allclose(g.get_crds_nc()[0], x[4:0:-1]), g.get_crds_nc()[0]
  """)
S("c23-set-comp", "C23",
  [("viscid/field.py", "            nr_comp += slices[:nr_comp].count(np.newaxis)\n            slices.insert(nr_comp, comp_slc)\n        except TypeError:\n            pass\n        self.data[tuple(slices)] = value",
    "            nr_comp += slices[:nr_comp].count(np.newaxis)\n            slices.insert(min(nr_comp, len([s for s in slices if isinstance(s, slice)])), comp_slc)\n        except TypeError:\n            pass\n        self.data[tuple(slices)] = value")],
  "assigning to one component of an interlaced field at a fixed index of an axis",
  "the component index is inserted at the position it has after the reduction, so it indexes a spatial axis",
  PRE + """
  f = viscid.zeros([x, y, z], center='node', nr_comps=3, layout='interlaced')
  f['x=1, y'] = 5.0
  w = np.zeros(f.shape); w[1, :, :, 1] = 5.0
  assert np.allclose(f.data, w)
  """)
S("c23-stride-start", "C23",
  [("viscid/coordinate.py", "                if cc and slc.step not in [None, 1, -1]:", "                if cc and slc.step not in [None, 1, -1] and slc.start is not None:")],
  "a strided selection without a start from a cell centered field",
  "the cell coordinates of the result do not belong to the selected cells",
  PRE + """
  f = viscid.zeros([x, y, z], center='cell')
  X, Y, Z = f.get_crds_cc(shaped=True)
  f.data[...] = Z + 0 * X + 0 * Y
  g = f['z=::3']
  assert np.allclose(g.data, g.get_crds_cc(shaped=True)[2]), g.get_crds_cc()[2]
  """)
