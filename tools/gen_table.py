"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (results as last run by hand)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
missed = {}
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], missed.get(d, m["property"])))
s = open(here + "/DESIGN.md").read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
