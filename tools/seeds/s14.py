AM = """
import numpy as np, viscid
from viscid.grid import Grid
from viscid.amr_grid import dataset_to_amr_grid
viscid.logger.setLevel(50)
def ds(boxes, c="cell", nr=0):
    d = viscid.dataset.Dataset(name="d")
    for i, b in enumerate(boxes):
        g = Grid(name="g%d" % i); g.time = 7.
        crds = viscid.arrays2crds([np.linspace(lo, hi, n + 1) for lo, hi, n in b]); g.set_crds(crds)
        sh = [n + (c == "node") for lo, hi, n in b] + ([nr] if nr else [])
        g.add_field(viscid.wrap_field(np.random.rand(*sh) + 1, crds, name="f", center=c, fldtype="vector" if nr else "scalar")); d.add(g)
    return d
def mk(*a, **k): return dataset_to_amr_grid(ds(*a, **k))[0]["f"]
ROW = [[(4 * i, 4 * i + 4, 4), (0, 2, 2), (0, 3, 3)] for i in range(3)]
QUAD = [[(x, x + 4, 4), (y, y + 2, 2), (0, 3, 3)] for y in (0, 2) for x in (0, 4)]
"""
import textwrap as _t
def D(s): return AM + _t.dedent(s)
S("c38-pairs", "C38",
  [("viscid/amr_field.py", "                        other[j] = arg.patches[i]\n", "                        other[j] = arg.patches[-1 - i]\n")],
  "an operation of two AMR fields", "patches are combined in the wrong order", D("""
  a, b = mk(ROW), mk(ROW)
  assert np.allclose((a - b).patches[0].data, a.patches[0].data - b.patches[0].data)
  """))
S("c38-mean-of-means", "C38",
  [("viscid/amr_field.py", "                arr = np.array(lst)\n", "                arr = np.array(lst[:self.nr_patches - (self.nr_patches > 2)])\n")],
  "a reduction of more than two patches", "the last patch is left out", D("""
  a = mk(ROW); a.patches[2].data[...] = 100.
  assert a.max() == 100.
  """))
S("c38-upper-edge", "C38",
  [("viscid/amr_field.py", "                                             xh_nc <= extent[0]))):\n", "                                             xh_nc < extent[0]))):\n"),
   ("viscid/amr_field.py", "                    if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):\n", "                    if np.all(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):\n")],
  "a plane on the border between patches", "the patches below are selected too", D("""
  a = mk(QUAD)
  assert len(a["y=2j"].patches) == 2
  """))
S("c38-putback", "C38",
  [("viscid/amr_field.py", "                        putback.append('{0}=newaxis'.format(_ax))\n", "                        putback.insert(0, '{0}=newaxis'.format(_ax))\n")],
  "slice_reduce where one patch has a single cell along the last axis", "that patch has the axis first", D("""
  a = mk([[(0, 4, 4), (0, 2, 2), (0, 3, 1)], [(4, 8, 4), (0, 2, 2), (0, 3, 3)]])
  r = a.slice_reduce("x=1j:7j")
  assert r.patches[0].crds.axes == r.patches[1].crds.axes
  """))
S("c38-array-axis", "C38",
  [("viscid/amr_field.py", "            patch_arr = arr[..., i]\n            fld = self.patches[i]", "            patch_arr = arr[..., i]\n            fld = self.patches[0]")],
  "the coordinates of what a numpy function gives", "all patches are where the first one is", D("""
  a = np.sqrt(mk(ROW))
  assert a.patches[2].crds.xl_nc[0] == 8.
  """))
S("c38-bounds", "C38",
  [("viscid/amr_grid.py", "        self.global_xh = np.max(self.xh, axis=0)\n", "        self.global_xh = self.xh[np.argmax(self.xl[:, 0])]\n")],
  "patches where the one at the upper end in x isn't at the upper end in y", "bounds that are too small", D("""
  d = dataset_to_amr_grid(ds(QUAD))[0]
  assert np.allclose(d.skeleton.global_xh, [8, 4, 3])
  """))
S("c38-neighbor-once", "C38",
  [("viscid/cython/cyamr.pyx", "                neighbors[j, nr_neighbors[j]] = i\n", "                neighbors[j, nr_neighbors[i]] = i\n")],
  "three patches", "neighbors are lost", D("""
  s = dataset_to_amr_grid(ds(QUAD))[0].skeleton
  assert set(s.neighbors[0][:s.nr_neighbors[0]]) == {1, 2, 3}
  """))
S("c38-compatible-n", "C38",
  [("viscid/amr_grid.py", "            if np.any(my_patch.n != grid.crds.shape_cc):\n                return False\n", ""),
   ("viscid/amr_grid.py", "            if not np.allclose(my_patch.xl, grid.crds.xl_nc):\n", "            if not np.allclose(my_patch.xl[0], grid.crds.xl_nc[0]):\n")],
  "patches moved in y", "bounds of the old ones", D("""
  a = dataset_to_amr_grid(ds(ROW))[0]
  b = dataset_to_amr_grid(ds([[x, (-1, 2, 2), z] for x, y, z in ROW]), a.skeleton)[0]
  assert b.skeleton.global_xl[1] == -1
  """))
