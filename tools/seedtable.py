#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
rows.sort()
t = "| seed | property | needs |\n|---|---|---|\n" + "".join(
    "| %s | %s | %s |\n" % (i, p, n.replace("|", "\\|")) for p, i, n in rows)
f = root + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"\| seed \| property \| needs \|\n\|---\|---\|---\|\n(\|.*\n)*", lambda _: t, s)
open(f, "w").write(s)
print(len(rows))
