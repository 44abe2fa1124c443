#!/usr/bin/env python3
"""Rewrite the list of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("* `%s` (%s): %s" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"]))
p = V + "/DESIGN.md"
t = open(p).read()
a = re.search(r"(?:^\* `\w+` \([A-Z]\d\d\): .*\n)+", t, re.M)
t = t[:a.start()] + "\n".join(rows) + "\n" + t[a.end():]
open(p, "w").write(t)
print(len(rows), "planted bugs")
