"""Plant bugs: python3 tools/mkseed.py DEFS.py [id ...]
DEFS.py calls S(id, property, edits, needs, breaks, demo).  Every seed is confirmed in a private
copy of the repository bind mounted over /repo (unshare -m), up to 4 at a time."""
import json, os, subprocess, sys, textwrap, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
DEMO_SH = """#!/bin/bash
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) && cd "$D" && mkdir work && cd work
timeout 280 /opt/venv/bin/python -W ignore "$H/demo.py"
rc=$?
cd / && find "$D" -delete
exit $rc
"""


def S(sid, prop, edits, needs, breaks, demo):
    SEEDS.append((sid, prop, edits, needs, breaks, textwrap.dedent(demo).lstrip()))


def one(args):
    (sid, prop, edits, needs, breaks, demo), slot = args
    base = "/tmp/mkseed%d" % slot
    repo, vb = base + "/repo", base + "/vb"
    os.makedirs(repo, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "/repo/", repo + "/"])
    subprocess.check_call(["rsync", "-a", "--delete", "/opt/viscid-build/", vb + "/"])
    for fn, old, new, *n in edits:
        n = n[0] if n else 0
        p = os.path.join(repo, fn)
        s = open(p).read()
        parts = s.split(old)
        if len(parts) < n + 2:
            return sid, "edit not found: %s" % old[:60]
        open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    tmp = base + "/seed"
    os.makedirs(tmp, exist_ok=True)
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.sh", "w").write(DEMO_SH)
    open(tmp + "/demo.py", "w").write(demo)
    json.dump({"property": prop, "needs": " ".join(needs.split()), "what_it_breaks": " ".join(breaks.split())},
              open(tmp + "/meta.json", "w"), indent=1)
    run = r"""
mount --make-rprivate / && mount --bind %(repo)s /repo && mount --bind %(vb)s /opt/viscid-build || exit 9
cd /repo
bash %(tmp)s/demo.sh > %(base)s/demo0.log 2>&1 || { echo CLEANFAIL; tail -5 %(base)s/demo0.log; exit 1; }
git apply %(tmp)s/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/build.sh > %(base)s/build.log 2>&1 || { echo BUILDFAIL; tail -5 %(base)s/build.log; exit 1; }
bash %(tmp)s/demo.sh > %(base)s/demo1.log 2>&1 && { echo DEMOPASSES; exit 1; }
tail -1 %(base)s/demo1.log
bash /opt/vp/test.sh %(base)s/out.json > %(base)s/test.log 2>&1
/usr/bin/python3 - <<X
import json
o=json.load(open('%(base)s/out.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
f=sorted(b-set(o.get('passed',o.get('pass',[]))))
print('TESTSFAIL %%s'%%f if f else 'TESTSOK')
X
cd %(verif)s; for c in %(checks)s; do bin/check $c quick > %(base)s/chk.log 2>&1; echo "CHECK $c rc=$?"; grep -E '^  |ANALYSIS|Error' %(base)s/chk.log | head -3 | cut -c1-200; done
""" % dict(repo=repo, vb=vb, tmp=tmp, base=base, verif=VERIF, checks=prop)
    r = subprocess.run(["unshare", "-m", "bash", "-c", run], capture_output=True, text=True)
    out = r.stdout + r.stderr[-300:]
    if "TESTSOK" in out:
        d = os.path.join(VERIF, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(tmp):
            shutil.copy(os.path.join(tmp, f), d)
        out = "KEPT " + out
    return sid, out


def main():
    exec(open(sys.argv[1]).read(), {"S": S})
    want = sys.argv[2:]
    seeds = [s for s in SEEDS if not want or s[0] in want]
    import queue
    q = queue.Queue()
    for i in range(4):
        q.put(i)

    def w(s):
        i = q.get()
        try:
            return one((s, i))
        finally:
            q.put(i)
    with ThreadPoolExecutor(4) as ex:
        for sid, out in ex.map(w, seeds):
            print("== %s: %s" % (sid, out.strip()), flush=True)


main()
