LZ = """
import numpy as np, viscid
from viscid.readers.vfile import DataWrapper
class S(DataWrapper):
    _hypersliceable = True
    def __init__(s, a): s.a = a
    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)
    def __array__(s, *a, **k): return np.array(s.a)
    def __getitem__(s, i): return np.array(s.a[i])
    def __len__(s): return len(s.a)
def crds(refl=""):
    c = viscid.wrap_crds("nonuniform_cartesian", [(x, np.linspace(0, 1, n) ** 2) for x, n in zip("xyz", (5, 6, 7))])
    c.reflect_axes = refl
    return c
"""
import textwrap as _t
def D(s): return LZ + _t.dedent(s)
S("c24-face-shape", "C24",
  [("viscid/field.py", "        cc = (self.iscentered(\"Cell\") or self.iscentered(\"Face\") or\n              self.iscentered(\"Edge\"))\n",
    "        cc = self.iscentered(\"Cell\") or self.iscentered(\"Face\")\n")],
  "an edge centered field with reflected axes that is sliced before it's loaded",
  "the selection is made as if there was one more element along the reflected axis", D("""
  d = np.random.rand(3, 6, 5, 4)
  mk = lambda v: viscid.wrap_field(v, crds("x"), center="edge", fldtype="vector", layout="flat", zyx_native=True)
  g = mk(np.array(d)).resolve()
  a, b = mk(S(d))["x=0:2"].data, g["x=0:2"].data
  assert a.shape == b.shape and np.allclose(a, b)
  """))
S("c24-interlaced-order", "C24",
  [("viscid/field.py", "                            _t_axes = list(range(_n - 1))[::-1] + [_n - 1]\n",
    "                            _t_axes = list(range(_n))[::-1]\n                            _t_axes = _t_axes[1:] + _t_axes[:1] if _n == 4 else list(range(_n))\n")],
  "an interlaced vector in z, y, x order of which a plane is selected before it's loaded",
  "the remaining axes are swapped", D("""
  d = np.random.rand(6, 5, 4, 3)
  mk = lambda v: viscid.wrap_field(v, crds(), center="cell", fldtype="vector", layout="interlaced", zyx_native=True)
  g = mk(np.array(d)).resolve()
  a, b = mk(S(d))["z=0,x=:4,y=:4"]["x"].data, g["z=0,x=:4,y=:4"]["x"].data
  assert a.shape == b.shape and np.allclose(a, b)
  """))
GG = LZ + """
from viscid.readers.openggcm import GGCMGrid
def grid(names, req="force", **info):
    g = GGCMGrid(name="g")
    g.set_info("_viscid_log_fname", None)
    for k, v in info.items():
        g.set_info(k, v)
    g.mhd_to_gse_on_read = req
    c = crds()
    g.set_crds(c)
    d = {}
    for n in names:
        nr = n in ("b", "v")
        a = np.random.rand(*(((3,) if nr else ()) + (6, 5, 4)))
        d[n] = np.array(np.moveaxis(a, -1, -3).swapaxes(-1, -2))[..., ::-1, ::-1, :]
        g.add_field(viscid.wrap_field(S(a), c, name=n, center="cell", fldtype="vector" if nr else "scalar", layout="flat", zyx_native=True))
    return g, d
"""
def G(s): return GG + _t.dedent(s)
S("c25-copy-sign", "C25",
  [("viscid/readers/openggcm.py", "            arr = numexpr.evaluate(\"arr * m1\")\n        else:\n            arr = arr * -1\n",
    "            arr = numexpr.evaluate(\"arr * m1\")\n        else:\n            arr = np.array(arr, copy=True)\n")],
  "copy_on_transform without numexpr", "x and y components keep their sign", G("""
  import viscid.readers.openggcm as o
  o._has_numexpr = False
  GGCMGrid.copy_on_transform = True
  g, d = grid(["vx"])
  assert np.allclose(g["vx"].data, -d["vx"])
  """))
S("c25-auto-gse", "C25",
  [("viscid/readers/openggcm.py", "            if crd_system == \"mhd\":\n                ret = True\n            elif crd_system == \"gse\":\n                ret = False\n            else:\n",
    "            if crd_system == \"mhd\":\n                ret = True\n            elif crd_system == \"gse\" and not default:\n                ret = False\n            else:\n")],
  "mhd_to_gse_on_read = auto_true on a grid known to be in gse", "a grid that is in gse already is flipped", G("""
  g, d = grid(["vx"], req="auto_true", crd_system="gse")
  assert np.allclose(g["vx"].data, d["vx"][::-1, ::-1])
  """))
S("c25-component-slice", "C25",
  [("viscid/readers/openggcm.py", "        shp.insert(0, -1)\n", "        shp.insert(0, -1)\n        comp_slc = None if np.shape(arr)[0] == 1 else comp_slc\n")],
  "one component of a vector data set selected before it's loaded", "factor of all components is applied to one", G("""
  g, d = grid(["b"])
  assert np.allclose(g["b"]["z, x=1:"].data, d["b"][2][1:])
  """))
S("c25-b1-fortran", "C25",
  [("viscid/readers/openggcm.py", "                                         pretty_name=\"B\", suffix=\"2\")\n        return self._ecfc_vector_setmeta('Face', _bfc)",
    "                                         pretty_name=\"B\", suffix=\"2\")\n            _bfc = viscid.scale(self._bbnorm, _bfc)\n        return self._ecfc_vector_setmeta('Face', _bfc)")],
  "b2 stored as bx2, by2, bz2 (in nT already)", "scaled by bbnorm twice", G("""
  g, d = grid(["bx2", "by2", "bz2"], ggcm_mhd_bbnorm=10.0)
  assert abs(g["b2"].data).max() < 1.5
  """))
S("c25-stagger-flip", "C25",
  [("viscid/readers/openggcm.py", "        stagger = [viscid.STAGGER_LEADING] * 3\n        if mhd_type.endswith(\"_GGCM\"):\n            stagger = [1 - s for s in stagger]\n        if self",
    "        stagger = [viscid.STAGGER_LEADING] * 3\n        if mhd_type.endswith(\"_GGCM\") and crd_system != \"gse\":\n            stagger = [1 - s for s in stagger]\n        if self")],
  "staggered field of a fortran run (FC_GGCM) converted to gse", "values are shifted by a cell", G("""
  g, d = grid(["b1x", "b1y", "b1z"], ggcm_mhd_bbnorm=1.0, ggcm_mhd_fld_mhd_type_str="FC_GGCM")
  f = g["b1"]
  # trailing faces along z: b1z[k] is at node k + 1
  assert np.allclose(f["z"].data[0, 0, 0], d["b1z"][1, 1, 0]) and f.get_crds_nc()[2][0] == crds().get_crds_nc()[2][1], f["z"].data[0, 0]
  """))
