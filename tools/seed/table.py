"""Prints the DESIGN.md table of planted bugs, and puts it there."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
