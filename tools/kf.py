"""rewrites the fixed: entries of known_findings.txt from tools/fixed.txt and the git log (run by hand)"""
import subprocess
k = [l for l in open("/verif/known_findings.txt") if not l.startswith("fixed:") and l.strip()]
log = dict(l.split(" ", 1) for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s", "773e14c..HEAD"], text=True).splitlines())
done = set()
for l in open("/verif/tools/fixed.txt"):
    if not l.strip():
        continue
    h, p = l.split()
    k.append("fixed: property=%s %s %s\n" % (p, h, log[h].replace("fix: ", "", 1)))
    done.add(h)
open("/verif/known_findings.txt", "w").writelines(k)
print("not listed:", [h for h in log if h not in done])
