"""Refresh the table of planted bugs in DESIGN.md (between the markers)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check that catches it | needs |", "| --- | --- | --- |"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    also = m.get("also") or []
    c = m.get("caught", True)
    rows.append("| %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)),
        (m["property"] + ("".join(", " + a for a in also))) if c else "missed (%s)" % m["property"],
        m["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->",
           lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
open(p, "w").write(t)
