#!/bin/bash
# development helper for the host explorers: hrun.sh harness node|py args...
h=$1; v=$2; shift 2
cd "$(dirname "$0")/.." && python3 - "$h" "$v" "$@" <<'P'
import sys, subprocess, os, collections
sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
import build, time
h, v, *a = sys.argv[1:]
c = build.build([(h, v)])[(h, v)]
t = time.time()
ps = [subprocess.Popen(c + a + ["--shard", f"{i}/8"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/tmp") for i in range(8)]
last=""; n = collections.Counter(); ex = {}; cases = 0
for i, p in enumerate(ps):
    so, se = p.communicate()
    if "STATS\t" not in so: print("shard", i, "died", se[-1500:])
    for l in so.split("\n"):
        if l.startswith("V\t"): f = l.split("\t", 3); n[f[1]] += 1; ex.setdefault(f[1], (f[2], f[3]))
        elif l.startswith("STATS\t"): last = l; import json; cases += json.loads(l[6:])["cases"]
W = int(os.environ.get("W", "500"))
for s, k in n.most_common(): print(k, s, ex[s][0], ex[s][1][:W])
print(last[:W], "cases", cases, round(time.time() - t, 1), "s")
P
