"""fill the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], caught.get(i, d["property"])))
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"<!-- table -->.*?<!-- end -->\n", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
