LD = """
import atexit, os, shutil, tempfile
T = tempfile.mkdtemp()
atexit.register(shutil.rmtree, T)
for n in ("a+k", "a+k+k", "c+k", "k", "x"):
    open(os.path.join(T, n), "w").close()
import viscid
from viscid.bucket import Bucket
from viscid.readers.vfile import VFile
from viscid.readers.vfile_bucket import VFileBucket, ContainerFile
viscid.logger.setLevel(60)
class Leaf(VFile):
    _detector = None
    def load(self, fname):
        self.fname = fname
class Holder(ContainerFile):
    _detector = None
    def load(self, fname):
        self.fname = fname
        for kid in fname.split("+")[1:]:
            self._load_child_file(os.path.join(T, kid), index_handle=False, file_type=Leaf)
"""
import textwrap as _t
def D(s): return LD + _t.dedent(s)
VB = "viscid/readers/vfile_bucket.py"
S("c07-refs", "C07",
  [(VB, "            self.child_bucket[child_handle].unload(_ref_count=ref_count)\n", "            self.child_bucket[child_handle].unload(_ref_count=min(ref_count, 1))\n")],
  "a container that refers to the same file twice", "the file stays loaded for good", D("""
  b = VFileBucket()
  h = b.load_file(T + "/a+k+k", file_type=Holder)
  h.unload()
  assert len(b) == 0, b
  """))
S("c07-hijack", "C07",
  [("viscid/bucket.py", "                if len(self._handles[old_hashable_item]) == 0:\n", "                if len(self._handles[old_hashable_item]) <= 1 and index_handle:\n")],
  "a handle taken over from an item that has one more", "the item is removed with its other handle", D("""
  b = Bucket()
  b.set_item(["a", "b"], "x", index_handle=False)
  b.set_item(["b"], "y")
  assert b["a"] == "x"
  """))
S("c07-counter", "C07",
  [("viscid/bucket.py", "                handles = handles + [self._int_counter]\n                self._int_counter += 1\n", "                handles = handles + [len(self._hash_lookup)]\n                self._int_counter += 1\n")],
  "adding after removing", "a new item takes the number of one that is there", D("""
  b = Bucket()
  for h in "abc":
      b[h] = "item " + h
  b.remove_item_by_handle("a")
  b["d"] = "item d"
  assert b[2] == "item c" and b[3] == "item d"
  """))
S("c07-kidref", "C07",
  [(VB, "            try:\n                self._child_ref_count[f.handle_name] += 1\n            except KeyError:\n                self._child_files.append(f)\n                self._child_ref_count[f.handle_name] = 1\n",
    "            if f not in self._child_files:\n                self._child_files.append(f)\n            self._child_ref_count[f.handle_name] = self.child_bucket._ref_count[f]\n")],
  "two containers that refer to one file", "unloading the second unloads the file the first uses", D("""
  b = VFileBucket()
  a = b.load_file(T + "/a+k", file_type=Holder)
  c = b.load_file(T + "/c+k", file_type=Holder)
  c.unload()
  assert T + "/k" in b
  """))
S("c07-reload", "C07",
  [(VB, "                    if force_reload:\n                        f.reload()\n", "                    if force_reload:\n                        f.unload()\n                        raise KeyError(handle_name)\n")],
  "force_reload of a file that is loaded", "another object takes its place", D("""
  b = VFileBucket()
  a = b.load_file(T + "/x", file_type=Leaf)
  assert b.load_file(T + "/x", file_type=Leaf, force_reload=True) is a
  """))
