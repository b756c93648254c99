"""selftest.py [PROPERTY...]: can the properties tell?

1. Every deliberate mistake of the model (constant Bug) must be reported by TLC.
2. Recorded executions of the real code with one observation falsified must be
   rejected by the property they falsify."""
import copy
import os
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "run"))
import driver as D
import gen
import models

# mistake -> properties whose models must report it
BUGS = {
    "sort_noop": ["C02", "C03", "C05"], "soft_nomax": ["C03"], "keep_flag": ["C02"],
    "topk_min": ["C05", "C04"], "topp_gt": ["C06"], "mk_off": ["C06", "C04"], "thr_le": ["C07"],
    "topa_sq": ["C07"], "tf_noabs": ["C09"], "lt_rank": ["C08"], "adj_flags": ["C02", "C14"], "flat_last": ["C15"],
    "temp_mul": ["C19"], "win_off": ["C16", "C17"], "rep_each": ["C16"], "freq_once": ["C17"],
    "seq_len": ["C18"], "seq_first": ["C18"], "rand_zero": ["C13"], "mu_sign": ["C10", "C11"],
    "miro2_norenorm": ["C10"], "miro1_s": ["C11"], "greedy_first": ["C12"], "rand_eats": ["C23"],
    "bad_stays": ["C26"], "last_slot": ["C26"], "ensure_adds": ["C26"],
    "leaf_stale": ["C21"], "no_stop": ["C20"], "any_tok": ["C20"], "chain_stale": ["C21"], "hook_once": ["C29"],
    "rollback": ["C25"], "go_on": ["C25"], "longest": ["C24"], "no_mu": ["C24"],
    "renumber": ["C27"], "one_more": ["C27"], "mu_lost": ["C10", "C11"],
    "global": ["C30"], "thread": ["C30"],
    "typed": ["C32"], "no_veto": ["C32"], "kept": ["C32"], "always_after": ["C32"], "only_once": ["C32"], "deaf": ["C32"],
    "make_swap": ["C33"], "make_stale": ["C33"], "make_clears": ["C33"], "make_first": ["C33"],
    "err_last": ["C34"], "err_swap": ["C34"], "err_inner": ["C34"],
    "frame_hist": ["C35"], "frame_draw": ["C35"], "frame_tok": ["C35"], "frame_tab": ["C35"], "frame_set": ["C35"],
    "nolock": ["C22"], "split": ["C22"], "poison": ["C22"], "unwrap": ["C22"], "try": ["C22", "C29"],
}


def model_bugs(prop, work):
    """[(mistake, reported?)] for the models of a property"""
    out = []
    for bug, props in BUGS.items():
        if prop not in props:
            continue
        hit = False
        for mod, invs, consts, _, *pr in models.MODELS[prop](prop, 1):
            if "Bug" not in consts:
                continue
            st, _, _ = models.explore(mod, [i for i in invs if i != "Emitted"], dict(consts, Bug=f'"{bug}"', Emit="FALSE"), work, props=pr[0] if pr else ())
            if st["violated"]:
                hit = True
                break
        out.append((bug, hit))
    return out


def main():
    props = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 36)]
    work = os.path.join(D.VERIF, "work", f"self.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    bad = 0
    try:
        D.build()
        for p in props:
            for bug, hit in model_bugs(p, work):
                print(p, bug, "reported" if hit else "NOT REPORTED", flush=True)
                bad += not hit
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
