#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
from collections import defaultdict

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    d[m["property"]].append((os.path.basename(os.path.dirname(f)), m["needs"]))
rows = "".join("| %s | %s |\n" % (k, "; ".join("`%s` (%s)" % (a, b[:110]) for a, b in d[k])) for k in sorted(d))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\d+ are kept in `seeded/`", "%d are kept in `seeded/`" % sum(map(len, d.values())), s)
s = re.sub(r"(\| \| \|\n\|---\|---\|\n)((?:\| C\d\d \|.*\n)+)", lambda m: m.group(1) + rows, s)
open(p, "w").write(s)
