"""seedtable.py : put the table of planted bugs into DESIGN.md"""
import glob, json, re
rows = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append("%s (%s)" % (f.split("/")[-2], m["what_it_breaks"].strip().rstrip(".")))
t = "<!--SEEDS-->\n| check | planted bugs it catches |\n|---|---|\n"
for p in sorted(rows):
    t += "| %s | %s |\n" % (p, "; ".join(rows[p]).replace("|", "/").replace("\n", " "))
t += "<!--/SEEDS-->"
s = open("/verif/DESIGN.md").read()
s = re.sub(r"<!--SEEDS-->(.*<!--/SEEDS-->)?", lambda m: t, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
