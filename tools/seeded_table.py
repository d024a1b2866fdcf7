#!/usr/bin/env python3
"""The table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded -->\n"


def cell(s):
    return " ".join(str(s).split()).replace("|", "/")


rows = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], cell(m["needs"]), cell(m["what_it_breaks"])))
path = ROOT + "/DESIGN.md"
s = open(path).read()
assert MARK in s
s = s[: s.index(MARK)] + MARK + "\n| id | caught by | needs | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(path, "w").write(s)
print(len(rows), "planted bugs")
