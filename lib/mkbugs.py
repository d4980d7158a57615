"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development tool; no check uses it)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read(); i = d.index("<!-- bugs -->")
out = ["<!-- bugs -->", "| id | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"]))
open(V + "/DESIGN.md", "w").write(d[:i] + "\n".join(out) + "\n")
