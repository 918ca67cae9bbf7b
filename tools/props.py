"""Single source of properties.jsonl and MANIFEST.json (run by hand: python tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=pid, title=title, statement=" ".join(statement.split()), over=over.split(),
                      qtext=qtext, why=" ".join(why.split()), files=files.split(), mech=mech,
                      technique=technique, note=" ".join((note or "").split()), na=na))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOTE = ("Static: decides from the current source, no execution. ")
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        mech = []
        for m in p["mech"].split(";"):
            name, _, where = m.strip().partition("@")
            mech.append({"name": name.strip(), "where": where.strip()})
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech}}) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
                   "thorough_cmd": "bin/check %s thorough" % p["id"],
                   "technique": p["technique"], "level": "other",
                   "level_note": NOTE + p["note"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import ast, Cython'",
           "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
