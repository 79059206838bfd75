import os, sys, json, subprocess, traceback
import driver, checks
def main(argv):
    if argv and argv[0] == "--replay":
        r = json.load(open(argv[1]))
        b = driver.B.build([(r["harness"], r["variant"])])[(r["harness"], r["variant"])]
        return subprocess.run(b + r["args"] + ["--only", r["case"]], env=driver.ENV).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    ids = [a for a in argv if not a.startswith("--")]
    rc = 0
    for pid in ids:
        c = checks.CHECKS[pid]
        try:
            if "func" in c: r = c["func"](pid, tier, c)
            else: r = driver.run_check(pid, c["explorers"], tier, c.get("level", "model_checking"), c.get("assumptions", []), c["rule"])
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
        if r == 1: rc = 1
    return rc
