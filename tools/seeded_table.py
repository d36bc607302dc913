"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json; which check catches each is recorded in tools/seeded_results.json by tools/run_seeded.py."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(ROOT, "tools", "seeded_results.json")
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
block = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: block, s, flags=re.S)
open(f, "w").write(s)
