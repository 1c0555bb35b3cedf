#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
t = open(H + "/DESIGN.md").read()
body = "<!-- bugs -->\n| bug | caught by | what is wrong | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
t = t.replace("@@TABLE@@", body) if "@@TABLE@@" in t else re.sub(r"<!-- bugs -->.*<!-- end -->", lambda _: body, t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
