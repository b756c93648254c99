"""plant.py <id> ...: (re)confirm planted bugs and run their property's check.

Reads tools/bugs/*.py definitions?  No: a bug is described by its folder under
seeded/; this script applies its patch to /repo, builds, runs the stable tests,
the demonstration and the check, and undoes the patch."""
import json
import os
import subprocess
import sys
import time

V = "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(b.get(k), list):
            return set(b[k])
    raise SystemExit(f"baseline keys {list(b)}")


def confirm(i, demo=True, check=True, tier="quick"):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    res = {}
    if sh("git -C /repo status --porcelain").stdout.strip():
        raise SystemExit("/repo not clean")
    if demo:
        res["demo_clean"] = sh(f"cd /repo && bash {d}/demo.sh").returncode
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return {"apply": r.stdout}
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return {"build": r.stdout[-1500:]}
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        got = json.load(open("/tmp/plant.json"))
        res["broken_tests"] = sorted(stable() - set(got["passed"]))
        if demo:
            r = sh(f"cd /repo && bash {d}/demo.sh")
            res["demo_bug"] = r.returncode
            res["demo_out"] = r.stdout[-200:]
        if check:
            t = time.time()
            r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER={tier} ./check.sh {meta['property']}")
            res["check"] = r.returncode
            res["secs"] = round(time.time() - t, 1)
            res["check_out"] = r.stdout[-300:]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    nodemo = "--nodemo" in args
    tier = "thorough" if "--thorough" in args else "quick"
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
    for i in ids:
        r = confirm(i, demo=not nodemo, tier=tier)
        ok = r.get("broken_tests") == [] and (nodemo or (r.get("demo_clean") == 0 and r.get("demo_bug")))
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        print(i, prop, "COUNTS" if ok else "INVALID", {0: "missed", 1: "CAUGHT"}.get(r.get("check"), r.get("check")),
              r.get("secs"), "" if ok and r.get("check") == 1 else json.dumps(r)[:1500], flush=True)
