#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE <<< python-list of (old,new): writes seeded/ID/{patch.diff,meta.json} from a scratch worktree of /repo.
Used by the author only; no check uses it."""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, needs, breaks, edits = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], eval(sys.stdin.read())
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", "-f", w, "HEAD"])
try:
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
print("wrote", d, len(diff))
