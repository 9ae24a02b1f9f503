"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (NOTES: how each was met)."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {"seek-negative-32": "first missed, until large positions in sparse files were added", "slice-short-copy": "caught by forced garbage collection under ASan",
         "bt-many-regs": "first missed, until functions with many live registers were added", "re-stale-groups": "the check becomes slow, but answers"}
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(p)); n = os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s%s |" % (n, m["property"], m["what_it_breaks"], m.get("caught_by", m["property"]), "; " + NOTES[n] if n in NOTES else ""))
p = R + "/DESIGN.md"; s = open(p).read()
i = s.index("## Planted bugs"); 
j = s.find("(table: see below)", i)
if j < 0: j = s.index("| bug |", i)
open(p, "w").write(s[:j] + "\n".join(rows) + "\n")
