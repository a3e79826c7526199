#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), m["needs"].replace("|", "\\|").replace("\n", " ")))
rows.sort()
out = "| check | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n" + out + "<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
