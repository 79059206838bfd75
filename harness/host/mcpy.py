# The explorers' scaffolding (harness/mc.hpp) for the Python client.
import sys, os, struct, json, itertools
class S: shard = 0; n = 1; thorough = False; only_section = ""; only_case = -1; prefix = ""; section = ""; out = ""; cases = 0; steps = 0; repo = "/repo"
per, outcomes, vcount, samples = {}, set(), {}, []
cur, idx, nviol, pos = "init", -1, 0, None
REAL = os.dup(1)
def init():
    global pos
    a = sys.argv[1:]; i = 0
    while i < len(a):
        k = a[i]
        if k == "--thorough": S.thorough = True; i += 1; continue
        v = a[i + 1] if i + 1 < len(a) else ""; i += 2
        if k == "--shard": S.shard, S.n = map(int, v.split("/"))
        elif k == "--only": S.only_section, c = v.rsplit(":", 1); S.only_case = int(c)
        elif k == "--prefix": S.prefix = v
        elif k == "--section": S.section = v
        elif k == "--out": S.out = v
        elif k == "--repo": S.repo = v
    if S.out: pos = open(S.out + ".pos", "w+b", 0); pos.write(bytes(4096))
    sys.stdout = open(os.devnull, "w")
def section(n):
    global cur, idx
    if not n.startswith(S.prefix) or (S.section and S.section != n) or (S.only_section and S.only_section != n): return False
    cur = n; per.setdefault(n, [0, 0]); idx = per[n][1] - 1; return True
def next_():
    global idx
    idx += 1; per[cur][1] += 1
    if S.only_case >= 0:
        if idx != S.only_case: return False
    elif idx % S.n != S.shard: return False
    S.cases += 1; per[cur][0] += 1
    if pos is not None and S.cases % 8 == 1:
        pos.seek(0); pos.write(cur.encode()[:200].ljust(256, b"\0") + struct.pack("<q", idx))
    return True
def step(n=1): S.steps += n
def outcome(x):
    h = 1469598103934665603
    for c in (x if isinstance(x, str) else repr(x)).encode("utf8", "replace"): h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    outcomes.add(h)
def sample(s):
    if len(samples) < 4 and S.shard == 0: samples.append(str(s)[:600])
def out(s): os.write(REAL, (s + "\n").encode("utf8", "replace"))
def violation(sig, d):
    global nviol
    nviol += 1; c = vcount.get(sig, 0); vcount[sig] = c + 1
    if c < int(os.environ.get("MC_VCAP", "2")) and len(vcount) < 60: out(f"V\t{sig}\t{cur}:{idx}\t" + str(d).replace("\t", " ").replace("\n", " ")[:3000])
def finish():
    if S.out:
        with open(S.out + ".hash", "wb") as f:
            for h in outcomes: f.write(struct.pack("<Q", h))
    out("STATS\t" + json.dumps(dict(cases=S.cases, steps=S.steps, violations=nviol, capped=False, sections=per, samples=samples)))
    os._exit(0)
