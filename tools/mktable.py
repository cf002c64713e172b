#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["<!-- bugs -->", "| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught", m["property"]), m["needs"].replace("|", "/")))
rows.append("<!-- /bugs -->")
p = root + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
