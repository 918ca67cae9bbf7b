SV = """
import os, tempfile, numpy as np, viscid, h5py
from viscid.readers import load_file, save_fields, save_grid
viscid.logger.setLevel(50)
d = tempfile.mkdtemp(); os.chdir(d)
X = [np.array([0., 1., 3., 4.]), np.array([0., .5, 2.]), np.array([-1., 0., 2., 5., 7.])]
crds = viscid.arrays2crds(X)
def mk(name, c="node", nr=0, layout="interlaced", t=3.25):
    sh = tuple(len(x) - (c != "node") for x in X)
    sh = sh if not nr else (sh + (nr,) if layout == "interlaced" else (nr,) + sh)
    return viscid.wrap_field(np.random.rand(*sh), crds, name=name, center=c, fldtype="vector" if nr else "scalar", layout=layout if nr else None, time=t)
"""
XD = SV + '''
HEAD = "<?xml version='1.0' ?><Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'><Domain>%s</Domain></Xdmf>"
def arr(a): return " ".join(repr(float(x)) for x in np.asarray(a).reshape(-1))
def geom(order="XYZ"):
    return '<Geometry GeometryType="VXVYVZ">%s</Geometry>' % "".join('<DataItem Name="V%s" Dimensions="%d" Format="XML">%s</DataItem>' % (c, len(X["XYZ".index(c)]), arr(X["XYZ".index(c)])) for c in order)
TOPO = '<Topology TopologyType="3DRectMesh" Dimensions="5 3 4"/>'
V = np.arange(60.).reshape(5, 3, 4)
def att(scale=1.): return '<Attribute Name="p" AttributeType="Scalar" Center="Node"><DataItem Dimensions="5 3 4" Format="XML">%s</DataItem></Attribute>' % arr(scale * V)
def grid(inner="", scale=1., g=None): return '<Grid Name="g" GridType="Uniform">%s%s%s%s</Grid>' % (inner, TOPO, geom() if g is None else g, att(scale))
def series(grids, time=""): return '<Grid Name="s" GridType="Collection" CollectionType="Temporal">%s%s</Grid>' % (time, "".join(grids))
def doc(body, name="a.xdmf"):
    with open(name, "w") as f: f.write(HEAD % body)
    return load_file(name)
'''
import textwrap as _t
def D(s): return SV + _t.dedent(s)
def E(s): return XD + _t.dedent(s)
S("c27-system-of-first", "C27",
  [("viscid/readers/hdf5.py", "                _crd_system = viscid.as_crd_system(fld, None)\n                if _crd_system:\n",
    "                _crd_system = fld.get_info(\"crd_system\") if fld.has_info(\"crd_system\") else None\n                if _crd_system:\n")],
  "a field whose crd_system is set on its grid", "the system is lost", D("""
  g = viscid.grid.Grid(name="g"); g.set_info("crd_system", "gse"); g.set_crds(crds); f = mk("p"); g.add_field(f)
  save_grid("a.h5", g)
  assert load_file("a.xdmf")["p"].find_info("crd_system", None) == "gse"
  """))
S("c28-short-times", "C28",
  [("viscid/readers/xdmf.py", "i < len(times)) else time", "i + 1 < len(times)) else time")],
  "a series whose times are a list", "the last frame has no time of its own", E("""
  f = doc(series([grid(scale=i) for i in range(3)], '<Time Type="List"><DataItem Dimensions="3" Format="XML">1. 2. 5.</DataItem></Time>'))
  assert f.children[0].children[2].time == 5. if not isinstance(f.children[0].children[2], tuple) else f.children[0].children[2][1].time == 5.
  """))
S("c28-relative-to-cwd", "C28",
  [("viscid/readers/xdmf.py", "                fname = os.path.join(self.dirname, fname)\n",
    "                fname = os.path.join(self.dirname if fname.startswith('.') else '', fname)\n")],
  "a document outside the working directory whose data is named without ./", "the data isn't found", E("""
  os.mkdir("sub")
  with h5py.File("sub/d.h5", "w") as h: h["p"] = V
  a = '<Attribute Name="p" AttributeType="Scalar" Center="Node"><DataItem Dimensions="5 3 4" Format="HDF">d.h5:/p</DataItem></Attribute>'
  f = doc('<Grid Name="g" GridType="Uniform">%s%s%s</Grid>' % (TOPO, geom(), a), "sub/a.xdmf")
  assert np.allclose(f["p"].data, V.T)
  """))
S("c28-origin-spacing", "C28",
  [("viscid/readers/xdmf.py", "            data_o, data_dx, n = data_o[::-1], data_dx[::-1], n[::-1]\n", "            data_o, n = data_o[::-1], n[::-1]\n")],
  "ORIGIN_DXDYDZ with different spacings", "x is spaced like z", E("""
  g = '<Geometry GeometryType="ORIGIN_DXDYDZ"><DataItem Dimensions="3" Format="XML">0 0 0</DataItem><DataItem Dimensions="3" Format="XML">3 2 1</DataItem></Geometry>'
  f = doc('<Grid Name="g" GridType="Uniform">%s%s%s</Grid>' % (TOPO.replace("3DRect", "3DCoRect"), g, att()))
  assert np.allclose(f["p"].get_crd_nc("x"), [0, 1, 2, 3])
  """))
S("c27-file-name", "C27",
  [("viscid/readers/hdf5.py", "        xdmf_fname = os.path.splitext(fname)[0] + \".xdmf\"\n", "        xdmf_fname = os.path.join(os.path.dirname(fname), os.path.basename(fname).split(\".\")[0] + \".xdmf\")\n")],
  "a file name with more than one dot", "the document is written under another name", D("""
  save_fields("a.10.h5", [mk("p")])
  assert os.path.exists("a.10.xdmf")
  """))
S("c27-time-digits", "C27",
  [("viscid/readers/hdf5.py", "  <Time Type=\"Single\" Value=\"{time}\" />", "  <Time Type=\"Single\" Value=\"{time:g}\" />")],
  "a time with more than six digits", "it is rounded", D("""
  save_fields("a.h5", [mk("p", t=1234567.25)])
  assert load_file("a.xdmf")["p"].time == 1234567.25
  """))
S("c28-flat-cell-time", "C28",
  [("viscid/readers/xdmf.py", "            elif ct == \"Spatial\":\n                grd = self._make_dataset(parent_node, name=attrs[\"Name\"])\n                self._inject_info(el, grd)\n",
   "            elif ct == \"Spatial\":\n                grd = self._make_dataset(parent_node, name=attrs[\"Name\"])\n                self._inject_info(el, parent_node)\n")],
  "Information of a spatial collection beside another one", "the other has it too", E("""
  sp = '<Grid Name="c%d" GridType="Collection" CollectionType="Spatial">%s' + grid() + '</Grid>'
  f = doc(sp % (0, '<Information Name="note" Value="a"/>') + sp % (1, ""))
  assert f.children[1].find_info("note", None) is None
  """))
