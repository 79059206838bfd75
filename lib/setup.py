#!/usr/bin/env python3
# Warm build of everything the checks use (they rebuild what they need themselves).
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
hs = set()
for c in checks.CHECKS.values():
    for e in c.get("explorers", []): hs.add((e["harness"], e.get("variant", "asan")))
build.build(sorted(hs))
print("built", len(hs), "explorers")
