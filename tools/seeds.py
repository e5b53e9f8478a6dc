"""python3 tools/seeds.py: the table of planted bugs at the end of DESIGN.md, from tools/seeds.json ([id, harness, strengthening])."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = json.load(open(here + "/tools/seeds.json"))
out = ["| bug | property | needs | reported by | strengthened for it |", "|---|---|---|---|---|"]
for i, h, s in sorted(rows):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, i)))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], h, s))
p = here + "/DESIGN.md"
text = open(p).read().split("\n<!-- seeds -->\n")[0]
open(p, "w").write(text.rstrip("\n") + "\n\n<!-- seeds -->\n" + "\n".join(out) + "\n")
