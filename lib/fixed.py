#!/usr/bin/env python3
"""Record the /repo fix commits whose subject matches a text: fixed.py <property> <text> ..."""
import subprocess, sys
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], text=True).splitlines()
f = "/verif/known_findings.txt"
cur = open(f).read()
for t in sys.argv[2:]:
    m = [l for l in log if t in l]
    assert len(m) == 1, (t, m)
    h, s = m[0].split(" fix: ", 1)
    if h not in cur: cur += f"fixed: property={sys.argv[1]} {h} {s}\n"
open(f, "w").write(cur)
have = cur
for l in log:
    if l.split()[0] not in have: print("unrecorded:", l)
