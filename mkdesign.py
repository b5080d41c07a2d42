#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md (repairs, findings, seeded changes)."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
s = open(H + "/DESIGN.md").read().split("<!-- GENERATED -->")[0] + "<!-- GENERATED -->\n"
F = json.load(open(H + "/known_findings.json"))["findings"]
s += "\n## Genuine defects repaired in /repo\n\nEach was found by the named check on the pinned tree, with the failing input executed on the real code.\n\n"
for f in F:
    if f["status"] == "fixed":
        s += "* %s\n" % f["record"]
s += "\n## Known findings (recorded, not repaired)\n\n"
o = [f for f in F if f["status"] == "open"]
g = {}
for f in o:
    g.setdefault((f["property"], f["what"]), []).append(f)
for (p, w), l in g.items():
    s += "* %s: %s (%d listed input%s)\n" % (p, w, len(l), "s" * (len(l) > 1))
if not o:
    s += "None.\n"
s += "\n## Seeded changes and what catches them\n\n| change | property | breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    s += "| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", "?"))
open(H + "/DESIGN.md", "w").write(s)
