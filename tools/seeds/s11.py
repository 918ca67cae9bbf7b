DS = """
import numpy as np, viscid
from viscid.dataset import DatasetTemporal, Dataset
from viscid.grid import Grid
def frame(i, t):
    g = Grid(name="g%d" % i); g.time = t
    g.add_field(viscid.wrap_field(np.ones((2, 3)) * i, viscid.arrays2crds([np.arange(2.), np.arange(3.)]), name="p"))
    return g
def series(ts=(0., 1., 2.5, 3., 7.)):
    ds = DatasetTemporal(name="s")
    for i, t in enumerate(ts):
        ds.add(frame(i, t))
    return ds
"""
import textwrap as _t
def D(s): return DS + _t.dedent(s)
S("c26-sort-append", "C26",
  [("viscid/dataset.py", "        self.children.append((child.time, child))\n        self.children.sort(key=itemgetter(0))\n",
    "        if self.children and child.time < self.children[-1][0]:\n            self.children.insert(-1, (child.time, child))\n        else:\n            self.children.append((child.time, child))\n")],
  "a frame that is older than the last two when it is added", "the frames are not in order of time", D("""
  ds = series((3., 5., 7., 1.))
  assert [g.time for g in ds.iter_times()] == [1., 3., 5., 7.]
  """))
S("c26-endpoint", "C26",
  [("viscid/dataset.py", "        std_sel = standardize_sel(sel)\n        idx_sel = std_sel2index(std_sel, times, val_endpoint=val_endpoint,\n                                interior=interior, tdunit=tdunit, epoch=basetime)\n",
    "        std_sel = standardize_sel(sel)\n        if isinstance(std_sel, slice) and std_sel.stop is None:\n            val_endpoint = True\n        idx_sel = std_sel2index(std_sel, times, val_endpoint=interior or val_endpoint or len(times) == 2,\n                                interior=interior, tdunit=tdunit, epoch=basetime)\n")],
  "val_endpoint=False on a series of two frames", "the last frame is included", D("""
  ds = series((0., 1.))
  assert [g.time for g in ds.iter_times("0.0j:1.0j", val_endpoint=False)] == [0.]
  """))
S("c26-field-time", "C26",
  [("viscid/dataset.py", "        if time is not None:\n            child = self.get_child(time)\n        else:\n            child = self.active_child\n\n        if child is None:\n            logger.error(\"Could not get appropriate child...\")\n            return None\n        else:\n            return child.get_field(fldname, time=time, slc=slc)\n",
    "        if time:\n            child = self.get_child(time)\n        else:\n            child = self.active_child\n\n        if child is None:\n            logger.error(\"Could not get appropriate child...\")\n            return None\n        else:\n            return child.get_field(fldname, time=time, slc=slc)\n")],
  "get_field(name, time=0) when another frame is active", "the field of the active frame is returned", D("""
  assert series().get_field("p", time=0).data[0, 0] == 0
  """))
S("c26-activate-all", "C26",
  [("viscid/dataset.py", "        for child in self.children:\n            try:\n                child.activate_time(time)\n            except AttributeError:\n                pass\n",
    "        try:\n            for child in self.children:\n                child.activate_time(time)\n        except AttributeError:\n            pass\n")],
  "a dataset that holds a grid without times before the series", "the series isn't activated", D("""
  o = Dataset(name="o"); g = frame(9, 0.); g.name = "static"; o.add(g); o.add(series())
  o.activate_time(1)
  assert o["p"].data[0, 0] == 1
  """))
