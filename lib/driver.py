#!/usr/bin/env python3
"""Runs one property's explorers: build from /repo's tree, shard over the cores, confirm every violation by
replaying it alone, match it against the known findings, write evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, struct, re, threading, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF
NCPU = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
CASE_HANG_S = 40          # a single case standing still this long is examined as a hang
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1")
for k in ("C4_STATES_DIR", "C4_STATE_DIR"): ENV.pop(k, None)

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out

def read_pos(path):
    try:
        d = open(path, "rb").read()
        s = d[:256].split(b"\0")[0].decode(); i = struct.unpack("<q", d[256:264])[0]
        return f"{s}:{i}" if s else None
    except Exception: return None

def crash_sig(stderr):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", stderr)
    kind = m.group(1) if m else ("ubsan" if "runtime error:" in stderr else "abort")
    fn = None
    for m in re.finditer(r"#\d+ 0x\w+ in (\S+) (/repo/\S+?):", stderr):
        fn = m.group(1); break
    return f"crash-{kind}-in-{fn or 'unknown'}"

class Shard:
    def __init__(self, cmd, out, cwd):
        self.out = out; self.cmd = cmd
        self.of = open(out + ".stdout", "w"); self.ef = open(out + ".stderr", "w")
        self.p = subprocess.Popen(cmd + ["--out", out], stdout=self.of, stderr=self.ef, env=ENV, cwd=cwd, start_new_session=True)
        self.last = None; self.last_t = time.time(); self.hang = None
    def poll(self):
        if self.p.poll() is not None: return True
        pos = read_pos(self.out + ".pos")
        now = time.time()
        if pos != self.last: self.last, self.last_t = pos, now
        elif now - self.last_t > CASE_HANG_S:
            self.hang = pos or "start:-1"
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except Exception: pass
            self.p.wait()
            return True
        return False
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except Exception: pass

def parse(stdout):
    viol, stats = [], None
    for l in stdout.split("\n"):
        if l.startswith("V\t"):
            f = l.split("\t", 3)
            viol.append((f[1], f[2], f[3] if len(f) > 3 else ""))
        elif l.startswith("STATS\t"):
            stats = json.loads(l[6:])
    return viol, stats

def replay(binary, extra, case, cwd, timeout):
    """Runs one case alone. Returns (set of signatures, text)."""
    with tempfile.TemporaryDirectory(prefix="vrep", dir=cwd) as d:
        try:
            r = subprocess.run(binary + extra + ["--only", case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d, timeout=timeout, start_new_session=True)
        except subprocess.TimeoutExpired:
            return {"hang"}, "did not terminate within %ds" % timeout
        so, se = r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
        v, st = parse(so)
        sigs = {s for s, _, _ in v}
        if st is None: sigs.add(crash_sig(se))
        return sigs, so[-4000:] + se[-6000:]

def run_check(pid, explorers, tier, level, assumptions, rule):
    """explorers: list of dict(harness, variant, args(list), shards)"""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bins = B.build(sorted({(e["harness"], e.get("variant", "asan")) for e in explorers}))
    work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    total = dict(cases=0, steps=0); sections = {}; samples = []; outcomes = set(); capped = False
    found = {}   # sig -> (explorer, case, detail)
    errors = []
    try:
        jobs = []
        for ei, e in enumerate(explorers):
            n = e.get("shards", NCPU)
            for s in range(n): jobs.append((ei, s, n))
        running = []
        while jobs or running:
            while jobs and len(running) < NCPU:
                ei, s, n = jobs.pop(0)
                e = explorers[ei]
                cwd = os.path.join(work, f"j{ei}_{s}"); os.makedirs(cwd)
                cmd = bins[(e["harness"], e.get("variant", "asan"))] + e.get("args", []) + (["--thorough"] if tier == "thorough" else []) + ["--shard", f"{s}/{n}"]
                running.append((ei, Shard(cmd, os.path.join(cwd, "out"), cwd)))
            time.sleep(0.05)
            rest = []
            for ei, sh in running:
                if not sh.poll(): rest.append((ei, sh)); continue
                so = open(sh.out + ".stdout", errors="replace").read(); se = open(sh.out + ".stderr", errors="replace").read()
                v, st = parse(so)
                for sig, case, det in v: found.setdefault(sig, (ei, case, det, sh.cmd))
                if st:
                    total["cases"] += st["cases"]; total["steps"] += st["steps"]; capped |= st["capped"]
                    for k, (a, b) in st["sections"].items():
                        o = sections.setdefault(explorers[ei]["harness"] + "/" + k, [0, 0]); o[0] += a; o[1] = max(o[1], b)
                    samples += st["samples"]
                    try:
                        d = open(sh.out + ".hash", "rb").read()
                        if len(outcomes) < 6000000: outcomes.update(struct.unpack(f"<{len(d)//8}Q", d))
                    except FileNotFoundError: pass
                else:
                    pos = sh.hang or read_pos(sh.out + ".pos")
                    sig = "hang" if sh.hang else crash_sig(se)
                    if pos: found.setdefault(sig, (ei, pos, se[-3000:], sh.cmd))
                    else: errors.append(f"explorer ended without result: {' '.join(sh.cmd)} rc={sh.p.returncode}\n{so[-500:]}\n{se[-3000:]}")
            running = rest
        # confirm by replaying each one alone
        known = known_findings()
        reported, known_hit = [], {}
        for sig, (ei, case, det, shcmd) in sorted(found.items())[:40]:
            e = explorers[ei]
            extra = e.get("args", []) + (["--thorough"] if tier == "thorough" else [])
            sigs, text = replay(bins[(e["harness"], e.get("variant", "asan"))], extra, case, work, 90)
            if not sigs: # may depend on the executions before it: repeat the whole shard
                rd = os.path.join(work, "rep_%d" % len(os.listdir(work))); os.makedirs(rd)
                sh = Shard(shcmd, os.path.join(rd, "out"), rd)
                while not sh.poll(): time.sleep(0.05)
                v, st = parse(open(sh.out + ".stdout", errors="replace").read())
                text = open(sh.out + ".stderr", errors="replace").read()
                sigs = {s for s, _, _ in v} | ({"hang" if sh.hang else crash_sig(text)} if st is None else set())
                if sig not in sigs: sigs = set()
            if not sigs:
                errors.append(f"violation {sig} at {case} did not replay; detail: {det[:800]}")
                continue
            hit = next((k for k in known if k[0] == pid and k[1] == sig), None)
            if hit: known_hit[hit] = (case, det); continue
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{pid}_{len(reported)}.json")
            json.dump(dict(property=pid, signature=sig, harness=e["harness"], variant=e.get("variant", "asan"), args=extra, case=case, detail=det, output=text[-4000:],
                           how=f"python3 /verif/check.py --replay {rp}"), open(rp, "w"), indent=1)
            reported.append((sig, rp, det))
        for k in known_hit: print(f"KNOWN-FINDING: property={pid} {k[2]}")
        for sig, rp, det in reported:
            print(f"VIOLATION property={pid} replay={rp}")
            print(f"  {sig}: {det[:600]}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=len(outcomes), transitions=total["steps"], traces_validated_against_impl=total["cases"],
                   rule=rule, samples=samples[:8], sections={k: v[0] for k, v in sections.items()}, exhaustive=(not capped and not errors and not reported),
                   counting="states: distinct observed states/outcomes (64-bit hashes, union over shards); transitions: calls into the code under test; traces_validated_against_impl: complete executions whose every observation was compared with the reference model")
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2),
                       violations=len(reported)), open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
        print(f"{pid} tier={tier} executions={total['cases']} calls={total['steps']} distinct={len(outcomes)} wall={time.time()-t0:.1f}s known={len(known_hit)} violations={len(reported)}")
        for er in errors: sys.stderr.write("ERROR: " + er + "\n")
        if reported: return 1
        return 2 if errors else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
