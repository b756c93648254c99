"""check.py <property>: decide one property on /repo's working tree."""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver as D
import gen
import ladder
import models

OP_MS = {"C28": 6000}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = os.path.join(D.VERIF, "work", f"{prop}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        model, beh = [], []
        D.build()
        if "--replay" in sys.argv:
            rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            scs = [rep["scenario"]]
        else:
            scs = gen.generate(prop, seed, float(os.environ.get("VERIF_SCALE", "1" if tier == "quick" else "8")))
            scs += ladder.generate(prop, seed, tier != "quick")
            model, beh = models.behaviours(prop, 1 if tier == "quick" else 2, work)
            scs += beh
        t1 = time.time()
        traces = D.run_all(scs, op_ms=OP_MS.get(prop, 20000))
        if prop == "C30":
            again = {t["id"]: t for t in D.run_all(scs[::-1], jobs=5)}
            for t in traces:
                if t["id"] in again:
                    t["ev2"] = again[t["id"]]["ev"]
        t2 = time.time()
        viol, g, d = D.validate(traces, [f"Inv_{prop}"], work)
        t3 = time.time()
        sample = []
        for t in traces[:2]:
            s = json.dumps(t)
            sample.append(s[:1500])
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": d, "transitions": g, "traces_validated_against_impl": len(traces),
                           "samples": sample,
                           "models": model, "model_states": sum(m["states"] for m in model),
                           "model_behaviours_replayed": len(beh)},
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(D.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(D.VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
        print(f"{prop}: {len(scs)} scenarios ({len(beh)} from the model's {sum(m['states'] for m in model)} states), {d} states; model {t1-t0:.1f}s run {t2-t1:.1f}s tlc {t3-t2:.1f}s")
        if viol:
            os.makedirs(os.path.join(D.VERIF, "work", "replay"), exist_ok=True)
            for t, pos, inv in viol:
                sc = next(s for s in scs if s["id"] == t["id"])
                path = os.path.join(D.VERIF, "work", "replay", f"{prop}-{t['id']}.json")
                json.dump({"property": prop, "invariant": inv, "event": pos, "scenario": sc, "trace": t},
                          open(path, "w"))
                print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0
    except D.ToolError as e:
        print(f"TOOL ERROR: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
