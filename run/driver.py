"""Running the harness, TLC, and putting the two together."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLADIR = "/opt/veriftools/tla"
CP = ":".join([BUILD, f"{TLADIR}/tla2tools.jar", f"{TLADIR}/CommunityModules-deps.jar"])
BIN = os.path.join(HARNESS, "target", "debug", "harness")


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """the harness against /repo's working tree, and the Java operators"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    src = os.path.join(VERIF, "java", "RealNum.java")
    cls = os.path.join(BUILD, "RealNum.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = os.path.join(BUILD, f"tmp.{os.getpid()}")
        os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-cp", f"{TLADIR}/tla2tools.jar", "-d", tmp, src])
        if r.returncode != 0:
            raise ToolError("javac failed:\n" + r.stdout[-4000:])
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
        shutil.rmtree(tmp)


def _limits():
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(lines, op_ms=20000):
    """run scenario lines; returns trace lines (as parsed objects).  A process
    that dies leaves a crash event in the scenario it was running."""
    out = []
    i = 0
    while i < len(lines):
        env = dict(os.environ, HARNESS_OP_MS=str(op_ms))
        p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, preexec_fn=_limits)
        try:
            so, _ = p.communicate(("\n".join(lines[i:]) + "\n").encode(), timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
        got = [json.loads(x) for x in so.decode().split("\n") if x.strip().endswith("}")]
        out += got
        i += len(got)
        if p.returncode == 0:
            if i != len(lines):
                raise ToolError("harness lost scenarios")
        elif p.returncode == 77:
            pass                               # the hang is recorded in the last trace
        elif i < len(lines):
            sc = json.loads(lines[i])
            how = "abort" if p.returncode < 0 or p.returncode in (101, 134) else f"exit{p.returncode}"
            if p.returncode == 101:
                raise ToolError("harness panicked on " + lines[i][:3000])
            out.append({"id": sc["id"], "tag": sc["tag"], "ev": [{"op": "crash", "out": how}]})
            i += 1
        else:
            raise ToolError(f"harness exit {p.returncode} after the last scenario")
        if sum(1 for t in out if t["ev"] and t["ev"][-1].get("op") == "crash") > 5:
            break                              # enough evidence
    return out


def run_all(scs, jobs=8, op_ms=20000):
    lines = [json.dumps(s) for s in scs]
    if not lines:
        return []
    jobs = max(1, min(jobs, len(lines)))
    parts = [lines[k::jobs] for k in range(jobs)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda p: run_harness(p, op_ms), parts))
    order = {s["id"]: n for n, s in enumerate(scs)}
    return sorted((t for r in res for t in r), key=lambda t: order[t["id"]])


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, workdir, workers=2, heap="3g", args=(), timeout=800, seed=None):
    """one TLC run; returns dict(rc, out, gen, distinct)"""
    os.makedirs(workdir, exist_ok=True)
    c = os.path.join(workdir, "m.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "states")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss64m", "-Dfile.encoding=UTF-8", f"-DTLA-Library={SPEC}",
           f"-Djava.io.tmpdir={workdir}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", c] + list(args) + [os.path.join(SPEC, module)]
    try:
        r = sh(cmd, cwd=workdir, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timeout on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATS.findall(r.stdout)
    return {"rc": r.returncode, "out": r.stdout,
            "gen": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0}


def trace_cfg(invs, path):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nALIAS Where\n"
            + "".join(f"INVARIANT {i}\n" for i in invs)
            + f'CONSTANT TraceFile = "{path}"\n')


def validate(traces, invs, workdir, jobs=4, chunk_mb=24):
    """check recorded traces; returns (violations, gen, distinct).  A violation
    is (trace, pos, invariant)."""
    chunks, cur, size = [], [], 0
    lines = [json.dumps(t) for t in traces]
    total = sum(map(len, lines))
    cap = min(chunk_mb << 20, max(1 << 18, total // jobs + 1))
    for t, ln in zip(traces, lines):
        if cur and size + len(ln) > cap:
            chunks.append(cur)
            cur, size = [], 0
        cur.append((t, ln))
        size += len(ln)
    if cur:
        chunks.append(cur)

    def one(k):
        wd = os.path.join(workdir, f"tlc{k}")
        os.makedirs(wd, exist_ok=True)
        path = os.path.join(wd, "trace.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(ln for _, ln in chunks[k]) + "\n")
        r = tlc("TraceProps.tla", trace_cfg(invs, path), wd)
        os.remove(path)
        o = r["out"]
        if r["rc"] == 0 and "No error has been found" in o:
            want = sum(len(t["ev"]) + 1 for t, _ in chunks[k])
            if r["distinct"] != want:
                raise ToolError(f"TLC consumed {r['distinct']} of {want} states")
            return None, r["gen"], r["distinct"]
        m = re.search(r"Invariant (\S+) is violated", o)
        if not m:
            with open(os.path.join(workdir, "tlc-error.txt"), "w") as f:
                f.write(o)
            raise ToolError("TLC failed:\n" + o[-3500:])
        sc = re.findall(r"^/\\ sc = (\d+)", o, re.M)
        pos = re.findall(r"^/\\ pos = (\d+)", o, re.M)
        # an initial-state violation prints no state numbers but the same lines
        return (chunks[k][int(sc[-1]) - 1][0], int(pos[-1]), m.group(1)), r["gen"], r["distinct"]

    viol, gen, dist, bad = [], 0, 0, None
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(one, k) for k in range(len(chunks))]:
            try:
                v, g, d = f.result()
            except ToolError as e:
                bad = e
                continue
            gen += g
            dist += d
            if v:
                viol.append(v)
    if bad and not viol:
        raise bad
    return viol, gen, dist
