"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
rows = ["| bug | breaks | needs | reported by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m["property"]))
s = open(p).read()
B, E = "<!-- seeds -->", "<!-- /seeds -->"
t = B + "\n" + "\n".join(rows) + "\n" + E
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else s[:s.index(B)] + t + s[s.index(E) + len(E):]
open(p, "w").write(s)
