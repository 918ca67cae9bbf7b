DS = """
import numpy as np, viscid
from viscid.grid import Grid
from viscid.dataset import Dataset
from viscid.tree import Node
viscid.logger.setLevel(50)
def mk(nr=0, c="node"):
    g = Grid(name="g"); g.time = 7.; g.set_info("k", "gk")
    sh = tuple(n - (c == "cell") for n in (5, 6, 7)) + ((3,) if nr else ())
    f = viscid.wrap_field(np.random.rand(*sh) + 1, viscid.arrays2crds([np.linspace(0, 1, n) for n in (5, 6, 7)]), name="f", center=c,
                          fldtype="vector" if nr else "scalar", time=None)
    g.add_field(f)
    f.set_info("own", "fo"); f.meta["m"] = "M"
    return f
"""
import textwrap as _t
def D(s): return DS + _t.dedent(s)
S("c35-bfs-depth", "C35",
  [("viscid/tree.py", "                next_level += obj.parents\n", "                next_level = obj.parents + next_level\n")],
  "a node with two parents that both have parents with the same information",
  "the grandparent through the second parent wins over the one through the first", D("""
  a, b, c, d, e = [Node(name=n) for n in "abcde"]
  b.prepare_child(a); c.prepare_child(a); d.prepare_child(b); e.prepare_child(c)
  d.set_info("x", 1); e.set_info("x", 2)
  assert a.find_info("x") == 1
  """))
S("c35-cell-time", "C35",
  [("viscid/field.py", "            f = type(self)(self.name, new_crds, None, center=\"node\",\n                           time=self.time, meta=self.meta,\n",
    "            f = type(self)(self.name, new_crds, None, center=\"node\",\n                           meta=self.meta,\n")],
  "the time of a cell centered field given on nodes", "it is 0", D("""
  assert mk(c="cell").as_node_centered().time == 7.
  """))
S("c35-update-self", "C35",
  [("viscid/tree.py", "            matching_parent = self.find_info_owner(key)\n            matching_parent.set_info(key, val)\n",
    "            matching_parent = self.find_info_owner(key)\n            (self if self.has_info(key) else (self.parents or [self])[0]).set_info(key, val)\n            assert matching_parent.has_info(key)\n")],
  "update_info of something two levels up", "the parent shadows the old value instead", D("""
  a, b, c = [Node(name=n) for n in "abc"]
  b.prepare_child(a); c.prepare_child(b)
  c.set_info("x", 1); a.update_info("x", 2)
  assert c.get_info("x") == 2
  """))
S("c35-component-parents", "C35",
  [("viscid/field.py", "                      meta=self.meta, deep_meta=context, parents=[self],\n",
    "                      meta=self.meta, deep_meta=context, parents=self.parents or [self],\n")],
  "information that is set on a field of a grid, asked of something computed from it", "it isn't found", D("""
  assert viscid.magnitude(mk(3)).find_info("own", None) == "fo"
  """))
