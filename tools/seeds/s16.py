ST = """
import numpy as np, viscid
viscid.logger.setLevel(50)
def uni(v=(1., 0., 0.), n=9):
    x = np.linspace(-4, 4, n)
    c = viscid.arrays2crds([x, x, x])
    d = np.empty((n, n, n, 3)); d[...] = v
    return viscid.wrap_field(d, c, name="v", center="node", fldtype="vector", layout="interlaced")
"""
import textwrap as _t
def D(s): return ST + _t.dedent(s)
SL = "viscid/cython/streamline.pyx"
S("c32-trim-second", "C32",
  [(SL, "                stream_length = 0.0\n                stream_t = 0.0\n", "                stream_length = 0.0 if i == 0 else stream_length - stream_length\n                stream_t = 0.0\n"),
   (SL, "                dt = 0.0\n                step_trim = 1.0\n", "                dt = 0.0\n                if it_no_trim(i):\n                    step_trim = 1.0\n")] if 0 else
  [(SL, "                dt = 0.0\n                step_trim = 1.0\n", "                dt = 0.0\n                if i == 0:\n                    step_trim = 1.0\n")],
  "max_length and both directions", "every forward step is cut like the last one backward", D("""
  l, _ = viscid.calc_streamlines(uni(), viscid.Point([[0.1, 0.2, 0.3]]), max_length=1.2, ds0=0.5, ibound=0.)
  assert np.allclose(sorted(np.diff(l[0][0])), [0.2, 0.2, 0.5, 0.5, 0.5, 0.5]), np.diff(l[0][0])
  """))
S("c32-south", "C32",
  [(SL, "        if pt[2] >= 0.0:\n", "        if pt0[2] >= 0.0:\n")],
  "a line that enters the inner boundary in the other hemisphere than its seed", "north and south are told from the seed", D("""
  _, t = viscid.calc_streamlines(uni((0., 0., 1.)), viscid.Point([[0.1, 0.2, 2.3]]), ibound=1., ds0=0.25, method="rk4", topo_style="generic", stream_dir=viscid.DIR_BACKWARD if hasattr(viscid, "DIR_BACKWARD") else 2)
  assert t.data.ravel()[0] == 3, t.data
  _, t = viscid.calc_streamlines(uni((0., 0., 1.)), viscid.Point([[0.0, 0.01, 1.2]]), ibound=1., ds0=1.3, stream_dir=2, topo_style="generic")
  assert t.data.ravel()[0] == 5, t.data
  """))
S("c32-interleave", "C32",
  [(SL, "            topo[slice(*seed_slices[i])] = r[i][1]\n", "            n0 = sum(chunk_sizes[:i])\n            topo[n0:n0 + chunk_sizes[i]] = r[i][1]\n")],
  "more than one chunk", "the topology is put together in another order than the lines", D("""
  s = viscid.Point(np.array([[0.1, 0.2, z] for z in (-3.2, -0.3, 0.4, 3.1, 0.2)]).T)
  a = viscid.calc_streamlines(uni(), s, ibound=1., ds0=0.3, stream_dir=2, nr_procs=1)[1].data
  b = viscid.calc_streamlines(uni(), s, ibound=1., ds0=0.3, stream_dir=2, nr_procs=2)[1].data
  assert (a == b).all(), (a, b)
  """))
S("c32-closed7", "C32",
  [(SL, "    elif end_flags == 3 or end_flags == 5 or end_flags == 7:\n", "    elif end_flags == 3 or end_flags == 5:\n")],
  "a line from one hemisphere of the body to the other", "a closed line counts as solar wind", D("""
  f = viscid.dipole.make_dipole(l=[-5] * 3, h=[5] * 3, n=[32] * 3, m=[0, 0, -1.])
  _, t = viscid.calc_streamlines(f, viscid.Point([[3.0, 0.3, 0.2]]), ibound=1.2, ds0=0.05, method="rk4")
  assert t.data.ravel()[0] == 1, t.data
  """))
S("c32-maxit", "C32",
  [(SL, "                while 0 <= it and it < maxit2:\n", "                while 0 < it and it < maxit2:\n")],
  "a line that ends by maxit backward", "it is one step shorter than forward", D("""
  l, _ = viscid.calc_streamlines(uni((1e-3, 0., 0.)), viscid.Point([[0.1, 0.2, 0.3]]), maxit=4, ds0=0.1)
  assert l[0].shape[1] == 9, l[0].shape
  """))
S("c32-length-both", "C32",
  [(SL, "                stream_length = 0.0\n                stream_t = 0.0\n", "                if d < 0:\n                    stream_length = 0.0\n                stream_t = 0.0\n"),
   (SL, "            end_flags = _C_END_NONE\n\n", "            end_flags = _C_END_NONE\n            stream_length = 0.0\n\n")],
  "max_length and both directions", "the length backward is counted forward too", D("""
  l, _ = viscid.calc_streamlines(uni(), viscid.Point([[0.1, 0.2, 0.3]]), max_length=1.2, ds0=0.5)
  assert l[0][0].max() > 1.2, l[0]
  """))
PA = "viscid/parallel.py"
S("c37-size", "C37",
  [(PA, "        nchunks = int(ceil(nel / size))\n\n    ret = chunk_slices", "        nchunks = nel // size\n\n    ret = chunk_slices")],
  "a size that does not divide the number of elements", "chunks are longer than the size", """
import math
from viscid import parallel
r = parallel.chunk_list(list(range(7)), 1, size=3)
assert len(r) == 3 and max(len(x) for x in r) <= 3, r
""")
S("c37-long-last", "C37",
  [(PA, "    ret[:nlong] = lenlong\n    ret[nlong:] = lenshort\n", "    ret[:] = lenshort\n    ret[nchunks - nlong:] = lenlong\n")],
  "a number of elements that the number of chunks does not divide", "the sizes belong to other chunks", """
from viscid import parallel
sz = parallel.chunk_sizes(7, 3)
assert [len(range(*slice(*s).indices(7))) for s in parallel.chunk_interslices(3)] == list(sz), sz
""")
S("c37-given", "C37",
  [(PA, "    if pool is not None:\n        return pool, pool.map_async(_star_passthrough, args_iter)\n    else:", "    if pool is not None and not threads:\n        return pool, pool.map_async(_star_passthrough, args_iter)\n    else:"),
   (PA, "        with closing(pool) as p:\n", "        if pool is not None and isinstance(pool, type(None)):\n            raise ValueError()\n        with closing(pool) as p:\n")] if 0 else
  [(PA, "    # if given a pool, don't close it when we're done delegating tasks\n    if pool is not None:\n        return pool, pool.map_async(_star_passthrough, args_iter)\n    else:\n        if threads:", "    if True:\n        if pool is not None:\n            pass\n        elif threads:")],
  "a pool that is used twice", "the first call closes it", """
import multiprocessing.pool
from viscid import parallel
p = multiprocessing.pool.ThreadPool(2)
a = parallel.map(2, abs, [(-1,), (2,)], pool=p)
b = parallel.map(2, abs, [(-1,), (2,)], pool=p)
assert a == b == [1, 2]
""")
