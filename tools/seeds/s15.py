EV = """
import numpy as np, viscid
from viscid.calculator import evaluator
viscid.logger.setLevel(50)
def grid(n=4):
    c = viscid.arrays2crds([np.linspace(0., 1., n + 1)] * 3)
    g = viscid.grid.Grid(name="g"); g.time = 3.; g.set_crds(c)
    for name in ("p", "q"):
        g.add_field(viscid.wrap_field(np.random.rand(n, n, n) + 1, c, name=name, center="cell"))
    return g
"""
import textwrap as _t
def D(s): return EV + _t.dedent(s)
S("c08-guard", "C08",
  [("viscid/calculator/evaluator.py", "    if not enabled:\n        raise RuntimeError(\"You must", "    if not enabled and not try_numexpr:\n        raise RuntimeError(\"You must")],
  "an equation while the evaluator is off and numexpr is installed", "numexpr runs it", D("""
  evaluator.enabled = False
  try:
      grid()["r=p+q"]
  except Exception:
      pass
  else:
      raise AssertionError("evaluated")
  """))
S("c08-builtins", "C08",
  [("viscid/calculator/evaluator.py", "eval(salted_eqn, {\"__builtins__\": {}}, local_dict)", "eval(salted_eqn, local_dict)")],
  "a name that is no function of numpy, with the numpy evaluator", "builtins can be called", D("""
  import os
  evaluator.enabled = True
  seen = []
  import builtins
  builtins.SALThook = lambda x: seen.append(1) or x
  try:
      evaluator.evaluate(grid(), "r", "hook(p)", try_numexpr=False)
  except Exception:
      pass
  assert not seen
  """))
S("c08-dunder", "C08",
  [("viscid/calculator/evaluator.py", "    # for security\n    eqn = eqn.replace(\"__\", \"\")\n    local_dict = dict()\n\n    def var_salter(symbols):\n        symbol = symbols.groups()[0]\n        if symbol", "    # for security\n    eqn = eqn.replace(\"__\", \"\", 1)\n    local_dict = dict()\n\n    def var_salter(symbols):\n        symbol = symbols.groups()[0]\n        if symbol")],
  "an equation with more than one double underscore", "the rest of them reach eval", D("""
  import builtins
  evaluator.enabled = True
  got = []
  evaluator.eval = lambda *a: got.append(a[0])
  try:
      evaluator.evaluate(grid(), "r", "p + __abs__(__abs__(p))", try_numexpr=False)
  except Exception:
      pass
  assert not any("__" in t for t in got), got
  """))
S("c08-slc", "C08",
  [("viscid/calculator/evaluator.py", "            local_dict[salted_symbol] = grid.get_field(symbol, slc=slc)\n", "            local_dict[salted_symbol] = grid.get_field(symbol, slc=slc if not local_dict else Ellipsis)\n")],
  "a selection with the numpy evaluator and two fields", "the second field is not selected", D("""
  evaluator.enabled = True
  g = grid()
  r = evaluator.evaluate(g, "r", "maximum(p, q)", try_numexpr=False, slc=np.s_[:1])
  assert np.allclose(np.asarray(r), np.maximum(g["p"].data[:1], g["q"].data[:1]))
  assert r.shape == g["p"][:1].shape
  """))
S("c08-prefix", "C08",
  [("viscid/calculator/evaluator.py", "        if salted_symbol not in local_dict:\n            this_fld = grid", "        if not any(k.startswith(salted_symbol) for k in local_dict):\n            this_fld = grid")],
  "an equation with a field whose name is the beginning of one before it", "the field is not looked up", D("""
  evaluator.enabled = True
  g = grid()
  g.add_field(viscid.wrap_field(np.ones((4, 4, 4)), g.crds, name="p2", center="cell"))
  r = g["r=p2 * 1 + p"]
  assert np.allclose(r.data, g["p"].data + 1)
  """))
S("c08-yaml", "C08",
  [("viscid/_rc.py", "yaml.safe_load(", "yaml.unsafe_load(")],
  "an rc file with a python tag", "it is run when the rc file is loaded", """
import os, tempfile, viscid._rc as rc
d = tempfile.mkdtemp()
p = os.path.join(d, "rc"); mark = os.path.join(d, "mark")
open(p, "w").write("x: !!python/object/apply:os.mkdir ['%s']\\n" % mark)
try:
    rc.load_rc_file(p)
except Exception:
    pass
assert not os.path.exists(mark)
""")
