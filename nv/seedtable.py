#!/usr/bin/env python3
"""developer helper: rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (all of them are caught by the check of their property)"""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
j = s.find("\n## ", i + 5)
t = """## Planted bugs
`seeded/*`; each confirmed in a scratch copy: it builds, the stable tests pass, the demonstration passes without and fails with it, and the
check of its property reports it with a failing input (`nv/seedtest.sh <id>`). Bugs that were missed at first and made a check stronger:
s17 (merge order), s18 (records of several measurement types), s25 (nearly parabolic multiple revolution transfers).

| bug | caught by | what it breaks |
|---|---|---|
"""
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    t += f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) |\n"
s = s[:i] + t + (s[j:] if j > 0 else "")
open(p, "w").write(s)
