"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | property | what it breaks | needs | history |", "|---|---|---|---|---|"]
H = json.load(open(os.path.join(R, "tools", "history.json")))
for b in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", b, "meta.json")))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], c(m["what_it_breaks"]), c(m["needs"]), H.get(b, "caught at once")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end of table -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*<!-- end of table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
