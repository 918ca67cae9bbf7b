"""Freeze the public interface the C01-C04 obligations quantify over (run by hand)."""
import json, sys
sys.path.insert(0, "/verif")
from sa.proj import Project
from sa.mutcheck import API
p = Project()
args, selfs = {}, []
for f in p.functions():
    mn = f.mod.name
    if mn.startswith("viscid.compat"):
        continue
    if f.name.startswith("_") and not f.name.startswith("__"):
        continue
    if f.cls is not None and f.cls.name.startswith("_") and "._" in f.qual and mn.startswith("viscid.readers"):
        pass
    selfn = f.params[0] if f.cls is not None and f.params and not f.is_static else None
    args[f.qual] = [a for a in f.allparams if a != selfn]
    if selfn:
        selfs.append(f.qual)
json.dump({"args": args, "self": sorted(selfs)}, open(API, "w"), indent=0, sort_keys=True)
print(len(args), sum(map(len, args.values())), len(selfs))
