#!/usr/bin/env python3
"""Rewrites the two generated tables of DESIGN.md: numbers of generated cases
per test, and planted bugs."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(os.listdir(here + "/harness/props")):
    if not f.endswith("_test.go"):
        continue
    fn = None
    for l in open(f"{here}/harness/props/{f}"):
        m = re.match(r"func (\w+)\(", l)
        if m:
            fn = m.group(1)
        m = re.search(r"\bcheck\(t, (\d+), (\d+),", l)
        if m and fn.startswith("TestC"):
            rows.append((fn[4:], m.group(1), m.group(2)))
        elif m:
            rows.append((fn, m.group(1), m.group(2)))
for name in ("TestC07_Concurrent", "TestC09_Faulty"):
    pass
tests = "| test | quick | thorough |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % r for r in sorted(rows))
bugs = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    bugs.append(f"* `{i}` ({m['property']}): {' '.join(m['needs'].split())}")
s = open(here + "/DESIGN.md").read()
for name, text in (("tests", tests), ("bugs", "\n".join(bugs))):
    a, b = f"<!-- {name} -->\n", f"<!-- end of {name} -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + "\n" + s[j:]
open(here + "/DESIGN.md", "w").write(s)
