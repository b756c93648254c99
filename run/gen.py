"""Scenario generators, one per property.  Every random choice comes from the
given generator, so a run is determined by its seed."""
import itertools
import math
import random

from util import *


def pre_ops(sc, rng, l, ids, vals):
    """operations before the one under test: sorting, probabilities, samplers"""
    r = rng.random()
    if r < 0.45:
        return
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.25:
            sc.op(op="sort", l=l)
        elif x < 0.5:
            sc.op(op="soft", l=l)
        else:
            kind = rng.choice(["temp", "temp", "flat", "topk", "topp", "minp", "greedy", "loctyp"])
            s = f"p{sc.n}"
            if kind == "temp":
                c = temp_cfg(rng)
            elif kind == "flat":
                c = flat_cfg(rng, ids, finite=True)
            elif kind == "greedy":
                c = {"k": "greedy"}
            else:
                c = filter_cfg(rng, kind, vals, lo=1)
                c["mk"] = max(c["mk"], 3)
            sc.mk(s, c)
            sc.run(s, l, m=rng.choice("ts"))


def filter_prop(kinds):
    def gen(rng, n):
        out = []
        for _ in range(n):
            sc = Sc()
            kind = rng.choice(kinds)
            dy = rng.random() < 0.35
            if dy:
                ids, vals, probs = put_dyadic(sc, rng, "a")
            else:
                ids, vals = put_list(sc, rng, "a", style="ninf" if rng.random() < 0.15 else None)
                probs = None
                pre_ops(sc, rng, "a", ids, vals)
            for j in range(rng.choice([1, 1, 2])):
                sc.mk(f"s{j}", filter_cfg(rng, kind, vals, probs, lo=0 if kinds is not FILTERS else 0))
                sc.run(f"s{j}", "a", m=rng.choice(["t", "t", "s", "ls", "lt"]))
            if rng.random() < 0.3:
                # the same sampler object on a second list
                ids, vals = put_list(sc, rng, "b")
                sc.run("s0", "b")
            out.append(sc)
        return out
    return gen


def g_c04(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        ids, vals = put_list(sc, rng, "a")
        if rng.random() < 0.4:
            pre_ops(sc, rng, "a", ids, vals)
        for j in range(rng.choice([1, 2, 3, 4])):
            kind = rng.choice(FILTERS)
            c = filter_cfg(rng, kind, vals, lo=1 if rng.random() < 0.9 else 0)
            if rng.random() < 0.15:
                # extreme parameters
                for k in ("p", "z", "a1", "a2"):
                    if k in c:
                        c[k] = rng.choice([b(0), b(-1), b(1e38), PINF, NINF, b(1e-45), NAN, b(1)])
            sc.mk(f"s{j}", c)
            sc.run(f"s{j}", "a", m=rng.choice("ts"))
        out.append(sc)
    return out


def mixed_ops(sc, rng, steps, l="a", chains=True, only=None, res=True, distinct=True, regular=False):
    """a history of operations and samplers on one list"""
    ids, vals = put_list(sc, rng, l, distinct=distinct)
    hist = history(rng, ids) if rng.random() < 0.6 else rep_history(rng, ids)
    kinds = only or KINDS
    sc.res("r", seed=rng.randrange(1 << 30) if rng.random() < 0.9 else None,
           hist=hist if rng.random() < 0.9 else None)
    for j in range(steps):
        x = rng.random()
        if x < 0.12:
            sc.op(op="sort", l=l)
        elif x < 0.3:
            sc.op(op="soft", l=l)
        elif x < 0.36:
            sc.op(op="push", r="r", toks=[t32(rng.choice(ids or [1]))])
        elif x < 0.5 and chains:
            mem = []
            for i in range(rng.choice([0, 1, 2, 3, 4, 6])):
                c = any_cfg(rng, rng.choice(kinds), ids, vals, hist)
                if rng.random() < 0.6:
                    sc.mk(f"m{j}_{i}", c)
                    mem.append({"ref": f"m{j}_{i}"})
                else:
                    mem.append(c)
            sc.mk(f"s{j}", {"k": "chain", "mem": mem, "how": rng.choice(["push", "add", "addassign"])})
            sc.run(f"s{j}", l, "r", rng.choice("ts"))
        else:
            sc.mk(f"s{j}", any_cfg(rng, rng.choice(kinds), ids, vals, hist))
            for _ in range(rng.choice([1, 1, 1, 2])):
                sc.run(f"s{j}", l, "r" if res and rng.random() < 0.95 else None,
                       rng.choice(["t", "t", "s", "lt", "ls"]))
    return ids, vals, hist


def orders(rng, kinds, each=1):
    """every order, with ties, of up to three logits (and some of four), in
    every truthful state, and every kind of sampler on each"""
    out = []
    shapes = [x for m in (1, 2, 3) for x in itertools.product(range(m), repeat=m)
              if set(x) == set(range(max(x) + 1))] + rng.sample(list(itertools.permutations(range(4))), 8)
    for x in shapes:
        sc = Sc()
        scale = rng.choice([1.0, 0.5, 3.0, 60.0])
        off = rng.choice([0.0, -2.0, 1.0])
        vals = [f32(scale * i + off) for i in x]
        ids = ids_for(rng, len(x))
        hist = (ids + ids) * 2
        sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
        down = all(a >= c for a, c in zip(vals, vals[1:]))
        probs = softmax(vals)
        for so, sm in [(False, False), (False, True)] + ([(True, False), (True, True)] if down else []):
            sc.raw("a", ids, vals, so, sm, probs if sm else [0.0] * len(x))
            for k in kinds:
                for _ in range(each):
                    sc.op(op="try", l="a", r="r", cfg=any_cfg(rng, k, ids, vals, hist),
                          m=rng.choice(["t", "s", "lt", "ls"]))
        out.append(sc)
    return out


def g_c01(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        r = rng.random()
        only = FILTERS + PICKERS if r < 0.3 else ADJUST if r < 0.5 else None
        mixed_ops(sc, rng, rng.choice([2, 4, 6]), only=only, distinct=rng.random() < 0.8)
        if rng.random() < 0.12:
            # logits that are no numbers count too: tokens are conserved whatever they are
            for o in sc.ops:
                if o["op"] == "raw" and o["e"]:
                    o["fso"] = o["fsm"] = False
                    for e in rng.sample(o["e"], rng.randint(1, min(3, len(o["e"])))):
                        e[1] = NAN
        out.append(sc)
    return out + orders(rng, KINDS)


def g_c02(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        mixed_ops(sc, rng, rng.choice([2, 4, 6, 8]))
        out.append(sc)
    return out + orders(rng, KINDS, 2)


def g_c03(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        for l in "ab"[: rng.choice([1, 2])]:
            r = rng.random()
            nn = rng.choice([1000, 2000, 5000]) if i < 4 else None
            ids, vals = put_list(sc, rng, l, n=nn, cap=40, bigcap=600,
                                 style=rng.choice([None, None, "huge", "ninf", "dup", "zeros", "tiny"]))
            for _ in range(rng.choice([1, 2, 3, 4])):
                x = rng.random()
                if x < 0.2:
                    sc.op(op="sort", l=l)
                elif x < 0.7:
                    sc.op(op="soft", l=l)
                else:
                    s = f"s{sc.n}"
                    sc.mk(s, rng.choice([temp_cfg(rng), flat_cfg(rng, ids), filter_cfg(rng, "topk", vals)]))
                    sc.run(s, l)
                    if rng.random() < 0.7:
                        sc.op(op="soft", l=l)
        out.append(sc)
    return out


def g_miro(kind):
    def gen(rng, n):
        out = []
        for i in range(n):
            sc = Sc()
            r = rng.random()
            steps = rng.choice([1, 2, 3, 5]) if r < 0.9 else rng.choice([12, 40])
            nn = size(rng)
            c = miro_cfg(rng, kind, nn)
            if r >= 0.9:
                c.pop("hmu", None)
            sc.mk("s", c)
            sc.res("r", seed=rng.randrange(1 << 30)) if rng.random() < 0.8 else sc.res(
                "r", words=[rng.choice([0, -1, 1 << 30, 12345, -(1 << 31)])])
            sc.res("none")
            for j in range(steps):
                l = f"l{j}"
                x = rng.random()
                if x < 0.25:
                    ids, vals, _ = put_dyadic(sc, rng, l)
                elif x < 0.33:
                    ids, vals = put_list(sc, rng, l, n=0)
                else:
                    st = None
                    if kind == "miro1":
                        st = rng.choice(["norm", "norm", "geo", "lin", "hot", "dup", "norm"])
                    ids, vals = put_list(sc, rng, l, style=st, bigcap=150)
                    if rng.random() < 0.2:
                        pre_ops(sc, rng, l, ids, vals)
                if j and rng.random() < 0.1:
                    # mu far off on the next step
                    sc.op(op="set", s="s", key="mu", val={"t": "f", "v": pair(rng.choice([0.0, 1.0, 3.5, 12.0]))})
                if j and rng.random() < 0.08:
                    sc.op(op="set", s="s", key="tau", val={"t": "f", "v": pair(rng.choice([0.5, 2.0, 3.5]))})
                sc.run("s", l, rng.choice(["r"] * 8 + ["none"]), rng.choice(["t", "t", "t", "s", "lt"]))
            out.append(sc)
        if kind == "miro1":
            # exact powers: a Zipf-like list and wide m
            for nn in (5, 20, 100):
                for e in (0.6, 1.3, 2.0):
                    for nv in (nn, 32000, 50257, 128256, 151936, 256000, 1000000, 16777217):
                        sc = Sc()
                        sc.new("a", [f32(-e * math.log(i + 1)) for i in range(nn)])
                        sc.res("r", seed=rng.randrange(1 << 30))
                        sc.mk("s", {"k": "miro1", "nv": nv, "tau": b(rng.choice([2.0, 3.0])), "eta": b(0.1),
                                    "m": rng.choice([100, 10, 2]), "hmu": True,
                                    "mu": b(rng.choice([1.0, 2.0, 3.0, 5.0]))})
                        sc.run("s", "a", "r")
                        out.append(sc)
        # the draw follows the renormalised probabilities of the kept tokens
        for _ in range(6):
            sc = Sc()
            vals = [f32(rng.gauss(0, 1.2)) for _ in range(rng.choice([3, 5, 9]))]
            e = [[t32(i * 7 + 3), b(v), b(0)] for i, v in enumerate(vals)]
            c = miro_cfg(rng, kind, len(vals), sane=True)
            c["hmu"], c["mu"] = True, b(rng.choice([1.0, 2.0, 3.0, 20.0]))
            sc.op(op="dist", cfg=c, e=e, fso=False, fsm=False, n=20000, rng={"seed": rng.randrange(1 << 30)},
                  hh=False, hist=[])
            out.append(sc)
        return out
    return gen


# a picker used through the types that forward to it
WRAPS = ["", "", "", "box", "arc", "built", "boxbuilt", "arcbox", "boxarc"]


def g_c12(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        ids, vals = put_list(sc, rng, "a", style=rng.choice([None, None, "dup", "zeros", "ninf", "huge"]))
        sc.res("r", seed=rng.randrange(1 << 30), hist=history(rng, ids))
        sc.mk("g", {"k": "greedy", "how": rng.choice(["new", "with"]), "wrap": rng.choice(WRAPS)})
        for j in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.6 and j:
                k = rng.choice(FILTERS + ADJUST + ["rand"])
                s = f"s{j}"
                sc.mk(s, any_cfg(rng, k, ids, vals, []))
                sc.run(s, "a", "r")
            elif r < 0.7:
                sc.op(op="sort", l="a")
            elif r < 0.8:
                sc.op(op="soft", l="a")
            sc.run("g", "a", "r" if rng.random() < 0.5 else None, rng.choice(["t", "t", "s", "lt", "ls"]))
        if rng.random() < 0.2:
            put_list(sc, rng, "b", n=0)
            sc.run("g", "b")
        out.append(sc)
    # every short list over extreme values
    pool = [-math.inf, -F32MAX, -1.0, -F32MIN, -0.0, 0.0, F32MIN, 1.0, F32MAX, math.inf]
    lists = [list(x) for m in (1, 2, 3) for x in itertools.product(pool, repeat=m)]
    for at in range(0, len(lists), 20):
        sc = Sc()
        sc.mk("g", {"k": "greedy"})
        for j, v in enumerate(lists[at:at + 20]):
            sc.raw("a", ids_for(rng, len(v)), v)
            sc.run("g", "a", None, rng.choice(["t", "s"]))
        out.append(sc)
    return out


def g_c13(rng, n):
    out = []
    extremes = [[0], [-1], [-1, 0], [0, -1], [1 << 30], [-(1 << 31)]]
    for i in range(n):
        same = []
        sc = Sc(same=same)
        ids, vals = put_list(sc, rng, "a")
        if rng.random() < 0.5:
            seed = dict(seed=rng.randrange(1 << 30))
        else:
            seed = dict(words=rng.choice(extremes))
        sc.res("r", **seed)
        sc.mk("s", {"k": "rand", "how": rng.choice(["new", "with"]), "wrap": rng.choice(WRAPS)})
        sc.op(op="cp", l="b", **{"from": "a"})
        runs = []
        if rng.random() < 0.3:
            pre_ops(sc, rng, "a", ids, vals)
        else:
            sc.res("r2", **seed)
            sc.mk("s2", {"k": "rand"})
            same_ok = True
            k = rng.choice([1, 2, 4])
            for _ in range(k):
                i1 = sc.run("s", "a", "r", rng.choice("t"))
                i2 = sc.run("s2", "b", "r2", "t")
                same.append([i1, i2])
        for _ in range(rng.choice([1, 2])):
            sc.run("s", "a", "r", rng.choice(["t", "s", "lt", "ls"]))
        if rng.random() < 0.2:
            put_list(sc, rng, "e", n=0)
            sc.res("nor")
            sc.run("s", "e", rng.choice(["nor", "r", None]))
        out.append(sc)
    for k in range(24):
        sc = Sc()
        nn = rng.choice([2, 3, 5, 8, 20])
        vals = logits(rng, nn, ["ints", "equal", "dup", "ninf", "zeros", "hot", "norm", "geo"][k % 8])
        if not any(v > -math.inf for v in vals):
            vals[0] = 0.0
        ids = ids_for(rng, nn)
        so = sm = False
        if rng.random() < 0.6:
            vals.sort(key=lambda x: -x)
            so = True
            sm = rng.random() < 0.5
        p = softmax(vals) if sm else [0.0] * nn
        sc.op(op="dist", cfg={"k": "rand"}, e=[[t32(i), b(v), b(q)] for i, v, q in zip(ids, vals, p)],
              fso=so, fsm=sm, n=200000 if k >= 20 else 30000, keep=k % 3 > 0, one=k % 3 > 1, rng={"seed": rng.randrange(1 << 30)}, hh=False, hist=[])
        out.append(sc)
    # one sampler on two lists of the same tokens in turn
    for k in range(6):
        sc = Sc()
        nn = [2, 3, 3, 5, 9, 4][k]
        ids = ids_for(rng, nn)
        e, e2 = ([[t32(i), b(f32(rng.gauss(0, 1.5))), 0] for i in ids] for _ in range(2))
        sc.op(op="dist", cfg={"k": "rand"}, e=e, e2=e2, fso=False, fsm=False, n=20000, keep=k < 4, rng={"seed": rng.randrange(1 << 30)},
              hh=False, hist=[])
        out.append(sc)
    # many tokens: all alike; one heavy and 2^-24 for each of the others
    for nn, head in ((20000, None), (30000, 1 - 29999 * 2.0 ** -24), (9000, 0.5)):
        sc = Sc()
        ps = [2.0 ** -24 if head and head > 0.9 else (1 - (head or 1 / nn)) / (nn - 1)] * nn
        ps[0] = head or 1 / nn
        sc.op(op="dist", cfg={"k": "rand"}, e=[[i, b(f32(math.log(q))), b(f32(q))] for i, q in enumerate(ps)],
              fso=True, fsm=True, n=60000 if head and head > 0.9 else 20000, one=True, keep=True, rng={"seed": rng.randrange(1 << 30)}, hh=False, hist=[])
        out.append(sc)
    # a heavy head and a long tail that together weigh something
    for nn, tail in ((40, -3.0), (300, -6.0), (1000, -7.0), (2000, -9.0)):
        sc = Sc()
        vals = [0.0] + [f32(tail + rng.gauss(0, 0.5)) for _ in range(nn - 1)]
        ids = ids_for(rng, nn, "shuf")
        sc.op(op="dist", cfg={"k": "rand"}, e=[[t32(i), b(v), 0] for i, v in zip(ids, vals)],
              fso=False, fsm=False, n=20000, rng={"seed": rng.randrange(1 << 30)}, hh=False, hist=[])
        out.append(sc)
    return out


def hot_ban(rng, sc):
    """a penalised ban at a temperature that brings every finite logit within
    reach: anything finite that stood in for -inf would be drawn"""
    nn = rng.choice([2, 3, 4])
    ids = ids_for(rng, nn)
    bans = ids[1:] if rng.random() < 0.7 else ids[:-1]
    sc.res("r", seed=rng.randrange(1 << 30), hist=(ids + ids) * rng.choice([1, 3]))
    sc.raw("a", ids, [f32(rng.gauss(0, 2)) for _ in ids])
    flat = {"k": "flat", "b": [[t32(t), NINF] for t in bans]}
    mid = rng.choice([
        {"k": "rep", "pen": b(rng.choice([1.5, 2.0])), "ln": 64},
        {"k": "freq", "f": b(1.0), "p": b(0.5), "ln": 64},
        {"k": "seqrep", "f": b(1.0), "s": b(0.5), "ml": 2, "tol": 0, "mm": 1, "ln": 64},
        {"k": "temp", "t": b(rng.choice([0.5, 1.0, 2.0]))},
        {"k": "flat", "b": [[t32(t), b(rng.choice([5.0, -5.0, 0.0]))] for t in ids]}])
    hot = {"k": "temp", "t": b(rng.choice([1e38, 3e38]))}
    sc.mk("s", {"k": "chain", "mem": [flat, mid, hot, {"k": rng.choice(["rand", "rand", "miro2"])}]})
    if sc.ops[-1]["cfg"]["mem"][-1]["k"] == "miro2":
        sc.ops[-1]["cfg"]["mem"][-1].update(tau=b(5.0), eta=b(0.1), mu=b(10.0))
    for i in range(6):
        if i == 5 or rng.random() < 0.2:
            sc.raw("a", ids, [f32(rng.gauss(0, 2)) for _ in ids])
        sc.run("s", "a", "r", rng.choice("ts"))


def g_c14(rng, n):
    out = []
    for _ in range(n):
        sc = Sc(c14=True)
        if rng.random() < 0.12:
            hot_ban(rng, sc)
            out.append(sc)
            continue
        nn = rng.choice([2, 3, 4, 6, 10, rng.randint(2, 60)])
        ids = ids_for(rng, nn)
        vals = [f32(rng.gauss(0, rng.choice([0.5, 2, 8]))) for _ in range(nn)]
        if rng.random() < 0.2:
            vals = [f32(rng.choice([-5.0, 0.0, 5.0])) for _ in range(nn)]
        keep = rng.randrange(nn)
        nban = rng.choice([1, 1, 2, nn - 1, nn // 2])
        bans = [i for j, i in enumerate(ids) if j != keep]
        rng.shuffle(bans)
        bans = bans[: max(1, nban)]
        if rng.random() < 0.3:
            # ban the top token
            top = max(range(nn), key=lambda i: vals[i])
            if top != keep and ids[top] not in bans:
                bans[0] = ids[top]
        hist = history(rng, ids) if rng.random() < 0.5 else rep_history(rng, ids)
        if rng.random() < 0.6:
            sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
        else:
            sc.res("r", words=rng.choice([[0], [-1], [-1, 0], [1 << 31 - 1], [5, -7]]), hist=hist)
        for rep in range(rng.choice([1, 1, 2])):
            l = f"l{rep}"
            if rng.random() < 0.5 and ids == list(range(nn)):
                sc.new(l, vals)
            else:
                so = rng.random() < 0.4
                o = sorted(range(nn), key=lambda i: -vals[i]) if so else list(range(nn))
                sc.raw(l, [ids[i] for i in o], [vals[i] for i in o], so, so and rng.random() < 0.5)
            flat = {"k": "flat", "b": [[t32(t), NINF] for t in bans]
                    + [[t32(i), b(rng.gauss(0, 2))] for i in ids if i not in bans and rng.random() < 0.2],
                    "how": rng.choice(["new", "with"])}
            rng.shuffle(flat["b"])
            if rep == 0 and rng.random() < 0.4:
                sc.mk("ban", flat)
                sc.run("ban", l, "r")
                inchain = False
            else:
                inchain = True
            for step in range(rng.choice([1, 1, 2, 4])):
                mem = [flat] if inchain and step == 0 else []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                    k = rng.choice(FILTERS + ["temp", "rep", "freq", "seqrep", "flat", "flat"])
                    if k == "flat":
                        mem.append(flat_cfg(rng, [i for i in ids if i not in bans], ban=0.0, finite=True))
                    else:
                        mem.append(any_cfg(rng, k, ids, vals, hist, sane=True))
                        if k in FILTERS:
                            for p in ("p", "z", "a1", "a2"):
                                if p in mem[-1] and not math.isfinite(unb(mem[-1][p])):
                                    mem[-1][p] = b(0.5)
                # penalties and temperatures stay in range (see C14)
                if rng.random() < 0.15:
                    # a finite stand-in for -inf comes within reach
                    mem.append({"k": "temp", "t": b(rng.choice([1e30, 1e37, 1e38, 3e38]))})
                mem.append(any_cfg(rng, rng.choice(PICKERS), ids, vals, hist, sane=True))
                if not inchain and step == 0:
                    pass
                sc.mk(f"s{rep}_{step}", {"k": "chain", "mem": mem, "how": rng.choice(["push", "add"])})
                sc.run(f"s{rep}_{step}", l, "r", rng.choice(["t", "t", "s"]))
                if rng.random() < 0.3:
                    sc.run(f"s{rep}_{step}", l, "r")
        out.append(sc)
    return out


def g_c15(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        ids, vals = put_list(sc, rng, "a", distinct=rng.random() < 0.8)
        for j in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.4:
                pre_ops(sc, rng, "a", ids, vals)
            c = flat_cfg(rng, ids)
            if rng.random() < 0.3 and c["b"]:
                for _ in range(rng.randint(1, 3)):
                    c["b"].append([rng.choice(c["b"])[0], b(rng.gauss(0, 5))])
            if rng.random() < 0.03:
                c["b"] += [[t32(rng.randrange(1 << 20)), b(1.0)] for _ in range(300)]
            sc.mk(f"s{j}", c)
            for _ in range(rng.choice([1, 1, 2, 3])):
                sc.run(f"s{j}", "a", m=rng.choice(["t", "s", "lt"]))
        out.append(sc)
    return out


def g_pen(kind):
    def gen(rng, n):
        out = []
        for i in range(n):
            sc = Sc()
            distinct = True if kind == "seqrep" else rng.random() < 0.85
            ids, vals = put_list(sc, rng, "a", distinct=distinct,
                                 style=rng.choice([None, None, "norm", "ints", "zeros", "ninf"]))
            if kind == "seqrep":
                h = rep_history(rng, ids) if rng.random() < 0.7 else history(rng, ids, rng.randint(0, 30), rng.choice([1, 2, 2, 3]))
                if i % 60 == 7:
                    h = history(rng, ids, rng.choice([150, 300]), 3)
            else:
                h = history(rng, ids)
                if i % 60 == 7:
                    h = history(rng, ids, rng.choice([300, 1500]))
            sc.res("r", hist=h)
            sc.res("none")
            for j in range(rng.choice([1, 2, 3])):
                if rng.random() < 0.25:
                    pre_ops(sc, rng, "a", ids, vals)
                c = pen_cfg(rng, kind, len(h))
                if kind == "seqrep" and len(h) > 100:
                    c["tol"] = 0
                    c.pop("tolx", None)
                if kind == "seqrep" and rng.random() < 0.6:
                    us(c, "ln", rng.choice([64, len(h), max(0, len(h) - 1), max(0, len(h) - 2), 1000]))
                    c.pop("lnx", None)
                sc.mk(f"s{j}", c)
                for _ in range(rng.choice([1, 1, 2])):
                    sc.run(f"s{j}", "a", rng.choice(["r"] * 9 + ["none"]), rng.choice(["t", "s", "lt"]))
                    if rng.random() < 0.4:
                        sc.op(op="push", r="r", toks=[t32(rng.choice(ids or [1])) for _ in range(rng.randint(1, 3))])
            out.append(sc)
        return out
    return gen


def g_c19(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        ids, vals = put_list(sc, rng, "a", style=rng.choice([None, None, "norm", "dup", "ninf", "zeros"]))
        sc.res("r", seed=rng.randrange(1 << 30))
        for j in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.6:
                pre_ops(sc, rng, "a", ids, vals)
            sc.mk(f"t{j}", temp_cfg(rng))
            sc.run(f"t{j}", "a", m=rng.choice("ts"))
            r = rng.random()
            if r < 0.4:
                sc.op(op="soft", l="a")
            elif r < 0.55:
                sc.op(op="sort", l="a")
            elif r < 0.75:
                sc.mk(f"g{j}", {"k": rng.choice(["greedy", "rand"])})
                sc.run(f"g{j}", "a", "r")
            else:
                sc.mk(f"f{j}", filter_cfg(rng, rng.choice(FILTERS), vals, lo=1))
                sc.run(f"f{j}", "a", "r")
        out.append(sc)
    return out


def tree(rng, leaves):
    """a random nesting of chains around the given member descriptions"""
    mem = []
    i = 0
    while i < len(leaves):
        if rng.random() < 0.3:
            j = rng.randint(i, len(leaves))
            mem.append({"k": "chain", "mem": tree(rng, leaves[i:j]) if j > i + 1 else leaves[i:j],
                        "how": rng.choice(["push", "add", "addassign"]),
                        "wrap": rng.choice(["", "", "box", "arc"])})
            i = j
            if rng.random() < 0.2 and i < len(leaves):
                mem.append(leaves[i])
                i += 1
        else:
            mem.append(leaves[i])
            i += 1
    if rng.random() < 0.08:
        mem.insert(rng.randrange(len(mem) + 1), {"k": "chain", "mem": []})
    return mem


def g_c20(rng, n):
    out = []
    for _ in range(n):
        cmp, same = [], []
        sc = Sc(cmp=cmp, same=same)
        ids, vals = put_list(sc, rng, "a")
        sc.op(op="cp", l="b", **{"from": "a"})
        hist = history(rng, ids) if rng.random() < 0.6 else rep_history(rng, ids)
        rd = dict(seed=rng.randrange(1 << 30) if rng.random() < 0.85 else None,
                  hist=hist if rng.random() < 0.85 else None)
        sc.res("ra", **rd)
        sc.res("rb", **rd)
        k = rng.choice([0, 1, 2, 3, 4, 6, 9])
        cfgs = []
        for i in range(k):
            if rng.random() < 0.12:
                cfgs.append({"k": "spy", "id": f"x{i}", "quiet": True,
                             "acts": rng.choice([["none"], ["first"], ["last"], ["none", "fail"], ["first", "pickfail"],
                                                 ["fail", "first"], ["drop"], ["first", "intr"], ["intr", "lack"],
                                                 ["none", "bad", "intr"]])})
            elif rng.random() < (0.25 if i == k - 1 else 0.04):
                # one that reports a token of its own, on the list or not
                t = rng.choice([t32(123456), t32(0), t32((1 << 32) - 1)] + [t32(x) for x in ids[-1:]])
                cfgs.append({"k": "spy", "id": f"x{i}", "quiet": True,
                             "acts": rng.choice([[["tok", t]], [["tok", t], "none"], ["drop", ["tok", t]]])})
            else:
                cfgs.append(any_cfg(rng, rng.choice(KINDS + PICKERS), ids, vals, hist))
        names = []
        for i, c in enumerate(cfgs):
            sc.mk(f"b{i}", c)
            names.append(f"b{i}")
        refs = rng.random() < 0.5
        leaves = []
        for i, c in enumerate(cfgs):
            if refs or rng.random() < 0.2:
                sc.mk(f"a{i}", c)
                leaves.append({"ref": f"a{i}"})
            else:
                w = rng.choice(["", "", "", "box", "box2", "arc", "arcbox", "boxarc", "built", "boxbuilt"])
                leaves.append(dict(c, wrap=w) if w else c)
        mem = tree(rng, leaves) if rng.random() < 0.5 else leaves
        split = rng.randint(0, len(mem)) if rng.random() < 0.2 else len(mem)
        sc.mk("c", {"k": "chain", "mem": mem[:split], "how": rng.choice(["push", "add", "addassign"]),
                    "wrap": rng.choice(["", "", "", "box", "arc"]) if split == len(mem) else ""})
        for m in mem[split:]:
            sc.op(op="addto", s="c", m=m, how=rng.choice(["push", "add", "addassign"]))
        steps = rng.choice([1, 2, 3])
        for j in range(steps):
            if j and rng.random() < 0.6:
                ids2, v2 = put_list(sc, rng, "a", n=rng.choice([0, None, 4]))
                sc.op(op="cp", l="b", **{"from": "a"})
            i1 = sc.run("c", "a", "ra", rng.choice("tts"))
            i2 = sc.op(op="seq", ss=names, l="b", r="rb")
            cmp.append([i1, i2])
            if rng.random() < 0.4:
                t = [t32(rng.choice(ids or [3]))]
                sc.op(op="push", r="ra", toks=t)
                sc.op(op="push", r="rb", toks=t)
        i1 = sc.op(op="peek", r="ra")
        i2 = sc.op(op="peek", r="rb")
        same.append([i1, i2])
        out.append(sc)
    return out


def g_c21(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        nruns = rng.choice([2, 3, 5, 8])
        lists = []
        for j in range(nruns):
            nn = rng.choice([0, 1, 2, 3, 5])
            ids = list(range(100 * (j + 1), 100 * (j + 1) + nn))
            v = logits(rng, nn, rng.choice(["norm", "ints", "ninf", "norm"]))
            if rng.random() < 0.08 and nn:
                v[rng.randrange(nn)] = math.nan
            sc.raw(f"l{j}", ids, v, False, False)
            lists.append((ids, v))
        sc.res("r", seed=rng.randrange(1 << 30), hist=[100, 200, 300])
        sc.res("none")
        sc.res("onlyh", hist=[100])
        ids, v = lists[0]
        if rng.random() < 0.45:
            c = any_cfg(rng, rng.choice(PICKERS), ids or [1], v or [0.0], [])
            if rng.random() < 0.3:
                c["wrap"] = rng.choice(["box", "arc", "built", "boxarc"])
            sc.mk("s", c)
            chain = False
        else:
            mem = []
            for i in range(rng.choice([0, 1, 1, 2, 3])):
                c = (any_cfg(rng, rng.choice(PICKERS + PICKERS + FILTERS + ["rep", "freq", "temp"]), ids or [1], v or [0.0], [1, 2])
                     if rng.random() < 0.75 else
                     {"k": "spy", "id": f"x{i}", "quiet": True,
                      "acts": rng.choice([["first", "fail"], ["first", "pickfail"], ["none"], ["first", "none"], ["fail", "first"],
                                          ["first", "intr"], ["first", "lack", "last", "bad"]])})
                if rng.random() < 0.3:
                    sc.mk(f"m{i}", c)
                    c = {"ref": f"m{i}"}
                mem.append(c)
            sc.mk("s", {"k": "chain", "mem": mem})
            chain = True
        for j in range(nruns):
            if chain and rng.random() < 0.25:
                sc.op(op="addto", s="s", m=rng.choice([{"k": "greedy"}, {"k": "rand"}, {"k": "topk", "n": 2, "mk": 1},
                                                       {"k": "spy", "id": "z", "quiet": True, "acts": ["none", "fail"]}]),
                      how=rng.choice(["push", "addassign", "add"]))
            sc.run("s", f"l{j}", rng.choice(["r", "r", "r", "none", "onlyh", None]), rng.choice(["t", "t", "s", "lt", "ls"]))
        out.append(sc)
    return out


def g_c22(rng, n):
    out = []
    routes = ["direct", "box", "chain", "topk", "nested", "nest2", "twice", "gate", "gatechain"]
    for i in range(n):
        sc = Sc()
        nt = rng.choice([2, 2, 3, 4, 8])
        rs = [rng.choice(routes) for _ in range(nt)]
        if i % 4 == 0:
            rs = [["chain", "topk", "nested", "nest2"][k % 4] for k in range(nt)]
        if i % 4 == 1:
            rs = ["direct"] * nt
        runs = rng.choice([10, 20, 40])
        panic = -1
        x = rng.random()
        if x < 0.3:
            panic = rng.choice([0, 1, 2, 5, nt * runs // 2])
        if rng.random() < 0.15:
            rs = [r if "gate" not in r else "chain" for r in rs]
            sc.op(op="share", cfg=rng.choice([{"k": "greedy"}, {"k": "rand"}]), routes=rs, runs=runs)
        else:
            sc.op(op="share", cfg={"k": "probe"}, routes=rs, runs=runs, panic_at=panic,
                  fail_every=rng.choice([0, 0, 3, 5]), spin=rng.choice([0, 50, 500, 3000]),
                  uses=rng.choice([0, 0, 1, 2]))
        if i % 4 == 2:
            busy_share(rng, sc, routes)
        out.append(sc)
    return out


def busy_share(rng, sc, routes):
    """the token is read and the hook invoked while others keep the lock"""
    rs = [rng.choice(routes) for _ in range(rng.choice([1, 2, 3]))] + rng.choice([["hold"], ["hook", "tok"], ["hold", "hook", "tok"]])
    rng.shuffle(rs)
    sc.op(op="share", cfg={"k": "probe"}, routes=rs, runs=rng.choice([6, 10]), panic_at=rng.choice([-1, -1, 3]),
          fail_every=rng.choice([0, 0, 3]), spin=rng.choice([0, 500, 3000]), uses=rng.choice([1, 2, 3]))


def g_c23(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        if rng.random() < 0.12:
            nn = rng.choice([1, 2, 3, 7])
            ids, vals = ids_for(rng, nn), [rng.choice([-math.inf, -math.inf, 0.0])] * nn
            sc.raw("a", ids, vals)
        else:
            ids, vals = put_list(sc, rng, "a")
        hist = rng.choice([history(rng, ids), rep_history(rng, ids), [], [5]])
        rk = rng.choice(["both", "rng", "hist", "none", "nil", "unit", "none", "absent"])
        if rk in ("nil", "unit"):
            sc.res("r", kind=rk)
        elif rk != "absent":
            sc.res("r", seed=rng.randrange(1 << 30) if rk in ("both", "rng") else None,
                   hist=hist if rk in ("both", "hist") else None)
        r = None if rk == "absent" else "r"
        if r and rng.random() < 0.5:
            for _ in range(rng.choice([1, 2])):
                sc.op(op="acc", r="r", which=rng.choice(["rng", "lt", "ltm"]))
        for j in range(rng.choice([1, 2, 3])):
            k = rng.choice(KINDS + ["rep", "freq", "seqrep", "rand", "miro1", "miro2"] * 2)
            c = any_cfg(rng, k, ids, vals, hist)
            if k == "seqrep" and rng.random() < 0.6:
                c["ml"], c["ln"] = 2, rng.choice([2, 64, 1])
                c.pop("mlx", None)
                c.pop("lnx", None)
            if k == "rep" and rng.random() < 0.4:
                c["pen"] = b(2.0)
            sc.mk(f"s{j}", c)
            if rng.random() < 0.3:
                pre = [any_cfg(rng, rng.choice(["topk", "temp", "flat"]), ids, vals, hist) for _ in range(rng.choice([0, 1, 2]))]
                mem = []
                for i, pc in enumerate(pre):
                    sc.mk(f"q{j}_{i}", pc)
                    mem.append({"ref": f"q{j}_{i}"})
                mem.append({"ref": f"s{j}"})
                sc.mk(f"c{j}", {"k": "chain", "mem": mem})
                sc.run(f"c{j}", "a", r, rng.choice("ts"))
            else:
                for _ in range(rng.choice([1, 1, 2])):
                    sc.run(f"s{j}", "a", r, rng.choice(["t", "s", "lt"]))
            if rng.random() < 0.15:
                put_list(sc, rng, "a", n=0)
                sc.run(f"s{j}", "a", r)
        out.append(sc)
    return out


OPTS = {
    "topk": [("k", "u"), ("min_keep", "u")],
    "topp": [("p", "f"), ("min_keep", "u")],
    "minp": [("p", "f"), ("min_keep", "u")],
    "loctyp": [("p", "f"), ("min_keep", "u")],
    "topa": [("a1", "f"), ("a2", "f"), ("min_keep", "u")],
    "tailfree": [("z", "f"), ("min_keep", "u")],
    "temp": [("temperature", "f")],
    "rep": [("penalty", "f"), ("last_n", "u")],
    "freq": [("frequency_penalty", "f"), ("presence_penalty", "f"), ("last_n", "u")],
    "seqrep": [("flat_penalty", "f"), ("stacking_penalty", "f"), ("min_length", "u"), ("tolerance", "u"),
               ("max_merge", "u"), ("last_n", "u")],
    "miro1": [("tau", "f"), ("eta", "f"), ("mu", "f"), ("m", "u"), ("n_vocab", "u")],
    "miro2": [("tau", "f"), ("eta", "f"), ("mu", "f")],
    "flat": [], "greedy": [], "rand": [],
    "spy": [("alpha", "f"), ("al", "u"), ("alphabet", "u"), ("beta", "b"), ("name", "s"), ("locked", "u")],
}
HID = [("mode", "u"), ("model", "f"), ("mo", "b"), ("zed", "u"), ("zeta", "u"), ("long_name", "s"), ("long", "u")]
FIELD = {"k": "n", "min_keep": "mk", "temperature": "t", "penalty": "pen", "last_n": "ln",
         "frequency_penalty": "f", "presence_penalty": "p", "flat_penalty": "f", "stacking_penalty": "s",
         "min_length": "ml", "tolerance": "tol", "max_merge": "mm", "n_vocab": "nv"}


def uval(rng):
    r = rng.random()
    if r < 0.55:
        return str(rng.randint(0, 12))
    if r < 0.7:
        return str(rng.randint(0, 100000))
    if r < 0.85:
        return str(rng.choice([255, 256, 257, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63, 2**64 - 1]))
    return str(rng.randrange(1 << 64))


def fval(rng):
    return rng.choice([0.0, 0.5, 1.0, -1.0, 0.1, 0.3333333333333333, 1e-9, 1e30, 1e300, -1e300, 1e-300, math.inf,
                       -math.inf, 16777217.0, rng.uniform(-5, 5), rng.gauss(0, 1), rng.uniform(0, 1), 3.0, 7.25])


def optval(rng, ty):
    if ty == "u":
        return {"t": "u", "d": uval(rng)}
    if ty == "f":
        return {"t": "f", "v": pair(fval(rng) + 0.0)}
    if ty == "b":
        return {"t": "b", "b": rng.random() < 0.5}
    return {"t": "s", "d": rng.choice(["", "x", "hello", "a=b", "a:b", "true", "1"])}


def key_of(rng, kind):
    keys = [k for k, _ in OPTS[kind]]
    r = rng.random()
    if keys and r < 0.45:
        return rng.choice(keys)
    if keys and r < 0.85:
        k = rng.choice(keys)
        return k[: rng.randint(0, len(k))]
    if keys and r < 0.93:
        k = rng.choice(keys)
        return rng.choice([k + "x", k.upper(), k[1:], k + " x", "_" + k, k[:-1] + "z", k.replace("_", "-")])
    if keys and r < 0.97:
        k = rng.choice(keys)
        k = k[: rng.randint(1, len(k))]
        a, z = rng.choice([("", "="), ("", ":"), ("=", ""), ("", "=1"), ("'", "'"), ('"', '"'), ("--", ""), ("", "."), ("", "*"), ("", "\\0"),
                           ("", ","), ("", "_"), ("", "s"), ("", "1")])
        return a + k + z
    return rng.choice(["", "bogus", "k", "p", "min_keep", "temperature", "tau", "m", "a", "a3", "min", "last_n", "_"])


def plain_cfg(rng, kind):
    if kind == "spy":
        return {"k": "spy", "id": "sp", "quiet": True, "acts": ["none"], "table": rng.choice(["full", "full", "full", "one", "none"])}
    ids = [0, 1, 2, 3]
    return any_cfg(rng, kind, ids, [0.0, 1.0, 2.0, -1.0], [0, 1, 0, 1])


def mk_any(sc, rng, s, kind):
    if kind == "spy8":
        sc.op(op="mk8", s=s, cfg={"k": "spy", "id": "sp", "quiet": True, "u8": True, "acts": ["none"],
                                  "table": rng.choice(["full", "full", "full", "one", "none"])})
        return
    c = plain_cfg(rng, kind)
    if rng.random() < 0.15 and kind != "spy":
        c["how"] = "default"
    if rng.random() < 0.25:
        c["wrap"] = "built"
    sc.mk(s, c)


def g_c24(rng, n):
    out = []
    for i in range(n):
        same = []
        sc = Sc(same=same)
        kind = rng.choice(KINDS + ["spy", "spy", "spy8", "spy8", "seqrep", "miro1", "miro2", "freq"])
        ok = "spy" if kind == "spy8" else kind
        if kind in ("flat", "greedy", "rand") and rng.random() < 0.7:
            kind = ok = "miro2"
        mode = rng.random()
        if mode < 0.3 and kind in OPTS and OPTS[kind] and kind != "spy":
            # constructing with the values and setting them later is the same
            ids, vals = put_list(sc, rng, "l1")
            sc.op(op="cp", l="l2", **{"from": "l1"})
            hist = rep_history(rng, ids)
            seed = rng.randrange(1 << 30)
            for r in ("r1", "r2"):
                sc.res(r, seed=seed, hist=hist)
            want = any_cfg(rng, kind, ids, vals, hist)
            other = any_cfg(rng, kind, ids, vals, hist)
            sc.mk("s1", want)
            sc.mk("s2", dict(other, how=rng.choice(["new", "with"])))
            if rng.random() < 0.3:
                sc.op(op="cp", l="l3", **{"from": "l1"})
                sc.res("r3", seed=1, hist=hist)
                if kind not in ("miro1", "miro2"):
                    sc.run("s2", "l3", "r3")
            opts = list(OPTS[kind])
            rng.shuffle(opts)
            if kind in ("miro1", "miro2"):
                opts.sort(key=lambda o: o[0] == "mu")  # tau resets mu
            strs = []
            how = rng.choice(["set", "cfg", "mixed"])
            for key, ty in opts:
                f = FIELD.get(key, key)
                if key == "mu" and not want.get("hmu"):
                    continue
                if ty == "u":
                    d = want.get(f + "x", str(want[f]))
                    v, sv = {"t": "u", "d": d}, d
                else:
                    x = unb(want[f])
                    v = {"t": "f", "v": pair(x)}
                    sv = "inf" if x == math.inf else "-inf" if x == -math.inf else repr(x)
                if how == "set" or (how == "mixed" and rng.random() < 0.5):
                    if strs:
                        sc.op(op="cfg", s="s2", str=":".join(strs))
                        strs = []
                    sc.op(op="set", s="s2", key=key, val=v)
                else:
                    strs.append(f"{key}={sv}")
            if strs:
                sc.op(op="cfg", s="s2", str=":".join(strs))
            for _ in range(rng.choice([1, 2])):
                m = rng.choice("ts")
                i1 = sc.run("s1", "l1", "r1", m)
                i2 = sc.run("s2", "l2", "r2", m)
                same.append([i1, i2])
            sc.op(op="get", s="s2", key=rng.choice(opts)[0])
        else:
            mk_any(sc, rng, "s", kind)
            if rng.random() < 0.3 and kind not in ("spy", "spy8"):
                sc.res("r", seed=4, hist=[1, 2, 1, 2])
                put_list(sc, rng, "a")
                sc.op(op="get", s="s", key=key_of(rng, ok))
                sc.run("s", "a", "r")
            for _ in range(rng.choice([2, 4, 7])):
                x = rng.random()
                key = key_of(rng, ok)
                if x < 0.65:
                    ty = dict(OPTS[ok]).get(key)
                    if ty is None:
                        m = [t for k, t in OPTS[ok] if k.startswith(key)]
                        ty = m[0] if m else "u"
                    if rng.random() < 0.15:
                        ty = rng.choice("ufbs")
                    sc.op(op="set", s="s", key=key, val=optval(rng, ty))
                elif x < 0.9:
                    sc.op(op="get", s="s", key=key)
                else:
                    sc.op(op="cfg", s="s", str=cfg_string(rng, ok))
        out.append(sc)
    # every key and every prefix of it, on every sampler
    for kind in OPTS:
        for k8 in ([kind, "spy8"] if kind == "spy" else [kind]):
            sc = Sc(same=[])
            if k8 == "spy8":
                sc.op(op="mk8", s="s", cfg={"k": "spy", "id": "sp", "quiet": True, "u8": True, "acts": ["none"], "table": "full"})
            else:
                c = plain_cfg(rng, kind)
                if kind == "spy":
                    c["table"] = "full"
                sc.mk("s", c)
            seen = set()
            for key, ty in OPTS[kind] + [("zzz", "u")]:
                for j in range(len(key) + 1):
                    if key[:j] in seen:
                        continue
                    seen.add(key[:j])
                    tys = [t for k, t in OPTS[kind] if k.startswith(key[:j])] or ["u"]
                    sc.op(op="set", s="s", key=key[:j], val=optval(rng, dict(OPTS[kind]).get(key[:j], tys[0])))
                    sc.op(op="get", s="s", key=key[:j])
                for t in "ufbs":
                    sc.op(op="set", s="s", key=key, val=optval(rng, t))
            out.append(sc)
    # options that cannot be reached beside others that can
    for op in ("mk", "mk8"):
        for ty in "ufbs":
            sc = Sc(same=[])
            sc.op(op=op, s="s", cfg={"k": "spy", "id": "sp", "quiet": True, "acts": ["none"], "table": "hid",
                                     **({"u8": True} if op == "mk8" else {})})
            for key in sorted({k[:j] for k, _ in HID for j in range(len(k) + 1)}):
                sc.op(op="set", s="s", key=key, val=optval(rng, ty))
                sc.op(op="get", s="s", key=key)
                sc.op(op="cfg", s="s", str=f"{key}={dict(u='3', f='0.5', b='t', s='q')[ty]}")
            out.append(sc)
    return out


def ws(rng):
    return rng.choice(["", "", "", "", "", " ", "  ", "\t", "\n", " \t", "\r\n", "\f", "\u00a0", "\u2003", " \u3000"])


def num_string(rng, ty):
    r = rng.random()
    if ty == "u":
        good = [uval(rng), "0", "007", "+5", "000", "18446744073709551615"]
        bad = ["-1", "1.5", "1e3", "", "abc", "0x10", "1_000", "18446744073709551616", "99999999999999999999999", "- 1",
               "1 2", "-0", "+", "1.", "true", "inf", "5u", "+-5", "++5"]
    elif ty == "f":
        good = ["0", "1", "-1", "0.5", "-0.25", "1e3", "1E-3", "+2.5", ".5", "1.", "inf", "-inf", "+inf", "1e400", "1e-400",
                "0.1", "3.4028236e38", "123456789.123", "1.0000001", "-.5", "1e+2", "00.5", repr(rng.uniform(-10, 10)),
                f"{rng.uniform(0, 1):.3f}", "-1e-3"]
        bad = ["", "abc", "1.2.3", "e5", "1e", "--1", "+-1", ".", "-", "+", "1e5.5", "0x1p3", "1,5", "1_0", "inf1", "-+inf", "in", "true",
               "1 e5", "1..2", "--inf", "5f"]
    elif ty == "b":
        good = ["true", "t", "yes", "1", "false", "f", "no", "0"]
        bad = ["True", "TRUE", "y", "n", "on", "off", "2", "", "tru", "truee", "01", "1.0", "fa"]
    else:
        good = ["", "x", "hello world", "1", "a=b", "=", "a==", "=b", "k=", "name=x", "Ünï",
                '"', '""', '"q"', "'q'", "'", "a,b", "a;b", "#x", "\\", "\\n", "%20", "{}", "(a)", "[a]", "null", "None", "TRUE", "a  b",
                "a\tb", "-", "--", "0", "-1", "inf", "true", "@file", "$HOME", "~", "*", "x" * 80]
        bad = good
    return rng.choice(good) if r < 0.75 else rng.choice(bad)


def cfg_string(rng, kind):
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.08:
            parts.append(ws(rng))
            continue
        key = key_of(rng, kind)
        m = [t for k, t in OPTS[kind] if k == key] or [t for k, t in OPTS[kind] if k.startswith(key)]
        ty = m[0] if m else rng.choice("ufbs")
        v = num_string(rng, ty if rng.random() < 0.9 else rng.choice("ufb"))
        if r < 0.15:
            parts.append(ws(rng) + v + ws(rng))
        elif r < 0.2:
            parts.append(ws(rng) + "=" + v)
        elif r < 0.23:
            parts.append(key + "=" + v + "=" + v)
        elif r < 0.26:
            parts.append(key + "=")
        else:
            parts.append(ws(rng) + key + ws(rng) + "=" + ws(rng) + v + ws(rng))
    return ws(rng) + ":".join(parts) + ws(rng) + (":" if rng.random() < 0.1 else "")


def good_string(rng, kind):
    """a string that is valid all through, keys in any order, possibly repeated"""
    parts = []
    opts = [o for o in OPTS[kind] if o[0] != "locked"]
    if not opts:
        return ""
    for _ in range(rng.choice([1, 2, 3, 5])):
        k, ty = rng.choice(opts)
        v = {"u": str(rng.randint(0, 200)), "f": rng.choice(["0.5", "1", "-2", "inf", "3e-1", "7"]),
             "b": rng.choice(["true", "no", "1", "f"]), "s": num_string(rng, "s")}[ty]
        parts.append(ws(rng) + k + ws(rng) + "=" + ws(rng) + v + ws(rng))
    return ":".join(parts)


def g_c25(rng, n):
    out = []
    for _ in range(n):
        sc = Sc()
        kind = rng.choice(KINDS + ["spy", "spy8", "temp", "seqrep", "miro1", "miro2"])
        ok = "spy" if kind == "spy8" else kind
        mk_any(sc, rng, "s", kind)
        for _ in range(rng.choice([1, 2, 4])):
            sc.op(op="cfg", s="s", str=good_string(rng, ok) if rng.random() < 0.35 else cfg_string(rng, ok))
        for _ in range(rng.choice([0, 1, 3])):
            ty = rng.choice("uffb" + "s")
            sc.op(op="parse", ty=ty, str=ws(rng) + num_string(rng, ty if rng.random() < 0.85 else rng.choice("ufb")) + ws(rng))
        out.append(sc)
    return out


def slot_cfg(rng, i):
    r = rng.random()
    if r < 0.6:
        return {"k": "spy", "id": f"y{i}_{rng.randrange(100)}", "acts": ["none"],
                "table": rng.choice(["full", "full", "full", "one", "none"])}
    if r < 0.8:
        return {"k": "topk", "n": rng.randint(0, 9), "mk": rng.randint(0, 3)}
    return {"k": "temp", "t": b(rng.choice([0.5, 1.0, 2.0, 0.25]))}


def built_alike(rng):
    """a builder's chain of any samplers, and the same samplers made, configured and chained by hand"""
    same = []
    sc = Sc(same=same)
    sc.op(op="b_new", b="b")
    hand = []
    vals = [0.0, 1.0, 2.0, -1.0, 0.5, 0.5]

    def conf(slot, kind):
        s = good_string(rng, kind).replace("inf", "2") if OPTS[kind] else ""
        sc.op(op="b_cfg", b="b", name=slot, str=s)
        return s

    def fresh():
        c = any_cfg(rng, rng.choice(KINDS), list(range(6)), vals, [0, 1, 1, 2])
        for k in [k for k in c if k + "x" in c]:
            del c[k + "x"]
            c[k] = 9999
        return c

    for i in range(rng.choice([1, 2, 3, 5])):
        ty, c, name = rng.choice(["static", "single", "single", "chain"]), fresh(), f"slot{i}"
        init = []
        if ty != "static":
            init = [fresh() for _ in range(rng.choice([0, 0, 1] if ty == "single" else [0, 1, 2]))]
        sc.op(op="b_push", b="b", name=name, ty=ty, fac=c, init=init, how=rng.choice(["push", "add", "addassign", "from"]))
        mine = [[c, []]] if ty == "static" else [[x, []] for x in init]
        for _ in range(0 if ty == "static" else rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.2:
                sc.op(op="b_ensure", b="b", i=i)
                if not mine:
                    mine = [[c, []]]
            elif ty == "single":
                if not mine:
                    mine = [[c, []]]
                mine[0][1].append(conf(name, mine[0][0]["k"]))
            else:
                mine.append([c, [conf(name, c["k"])]])
        hand += mine
    sc.op(op="b_chain", b="b", s="c")
    mem = []
    for j, (c, strs) in enumerate(hand):
        sc.mk(f"h{j}", c)
        for x in strs:
            sc.op(op="cfg", s=f"h{j}", str=x)
        mem.append({"ref": f"h{j}"})
    sc.mk("d", {"k": "chain", "mem": mem})
    seed, hist = rng.randrange(1 << 30), [rng.randrange(7) for _ in range(rng.choice([0, 3, 12, 40]))]
    for r in ("r1", "r2"):
        sc.res(r, seed=seed, hist=hist)
    for _ in range(rng.choice([1, 2, 3])):
        v = [f32(rng.gauss(0, 2)) for _ in range(rng.choice([0, 1, 3, 6, 9]))]
        at = []
        m = rng.choice(["t", "t", "s", "lt"])
        for s, r in (("c", "r1"), ("d", "r2")):
            sc.new("l", v)
            sc.run(s, "l", r, m)
            at.append(len(sc.ops))
        same.append(at)
    return sc


def g_c26(rng, n):
    out = [built_alike(rng) for _ in range(n // 3)]
    for _ in range(n):
        sc = Sc()
        sc.op(op="b_new", b="b")
        slots = []
        pool = ["one", "two", "on", "one", "ONE", "One", " one", "temperature", "", "x", "X"]

        def push():
            i = len(slots)
            name = rng.choice(pool) if rng.random() < 0.5 else f"slot{i}"
            ty = rng.choice(["static", "single", "single", "chain", "chain"])
            fac = slot_cfg(rng, i)
            init = []
            if ty == "single" and rng.random() < 0.35:
                init = [slot_cfg(rng, 50 + i)]
            if ty == "chain":
                init = [slot_cfg(rng, 60 + i) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            sc.op(op="b_push", b="b", name=name, ty=ty, fac=fac, init=init,
                  how=rng.choice(["push", "push", "add", "addassign", "from"]))
            slots.append((name, ty, fac))

        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            push()
        for _ in range(rng.choice([0, 2, 4, 7])):
            r = rng.random()
            if r < 0.1:
                push()
            elif r < 0.75:
                if slots and rng.random() < 0.9:
                    name, ty, fac = rng.choice(slots)
                    if rng.random() < 0.06:
                        name = rng.choice([name.upper() + "x", name.upper(), name.swapcase(), name + " ", name[:-1]])
                else:
                    name, ty, fac = rng.choice(["nope", "", "on", "ones"]), "single", {"k": "temp"}
                k = fac["k"]
                s = good_string(rng, k) if rng.random() < 0.6 else cfg_string(rng, k)
                if rng.random() < 0.1:
                    s = ""
                sc.op(op="b_cfg", b="b", name=name, str=s)
            elif slots:
                sc.op(op="b_ensure", b="b", i=rng.randrange(len(slots)))
        sc.op(op="b_chain", b="b", s="c")
        nn = rng.randint(0, 8)
        sc.new("l", [f32(rng.gauss(0, 2)) for _ in range(nn)])
        sc.res("r", seed=3, hist=[])
        sc.run("c", "l", "r", rng.choice("ts"))
        if rng.random() < 0.3:
            sc.new("l", [f32(rng.gauss(0, 2)) for _ in range(nn)])
            sc.run("c", "l", "r")
        out.append(sc)
    return out


def g_c27(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        for j in range(rng.choice([1, 2, 3])):
            nn = size(rng, 16)
            if i % 100 == 3:
                nn = rng.choice([500, 1500])
            v = logits(rng, nn)
            for k in range(nn):
                x = rng.random()
                if x < 0.05:
                    v[k] = math.inf
                elif x < 0.1:
                    v[k] = -math.inf
            if rng.random() < 0.5:
                for _ in range(rng.randint(0, 2)):
                    if nn:
                        v[rng.randrange(nn)] = math.nan
            via = rng.choice(VIAS)
            if rng.random() < 0.4:
                sc.op(op="new", l=f"l{j}", v=[b(x) for x in v], via=via)
            else:
                o = dict(op="newk", l=f"l{j}", v=[b(x) for x in v], via=via)
                us(o, "n", rng.choice([0, 1, 2, 3, max(0, nn - 1), nn, nn + 1, 20, rng.randint(0, nn + 3), rng.choice(HUGE)]))
                sc.op(**o)
        out.append(sc)
    return out


WILD = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 3.4e38, -3.4e38, 1e-45, 1e-38, 2.0, 0.5, -0.5, 1e10, 255.0]


def wild_cfg(rng, kind, n, h):
    def f():
        return b(rng.choice(WILD) if rng.random() < 0.7 else rng.gauss(0, 3))

    def u(c, k):
        r = rng.random()
        return us(c, k, rng.randint(0, max(3, n + 2)) if r < 0.5 else rng.choice([0, 1, 2, h, h + 1, max(0, h - 1), n, 2147483647 - 1] + HUGE))

    c = {"k": kind, "how": rng.choice(["new", "with"])}
    fl = {"topk": [], "topp": ["p"], "minp": ["p"], "topa": ["a1", "a2"], "loctyp": ["p"], "tailfree": ["z"], "temp": ["t"],
          "flat": [], "rep": ["pen"], "freq": ["f", "p"], "seqrep": ["f", "s"], "greedy": [], "rand": [],
          "miro1": ["tau", "eta"], "miro2": ["tau", "eta"]}[kind]
    for k in fl:
        c[k] = f()
    for k in {"topk": ["n"], "rep": ["ln"], "freq": ["ln"], "seqrep": ["ml", "tol", "mm", "ln"], "miro1": ["m", "nv"]}.get(kind, []):
        u(c, k)
    if kind in FILTERS:
        u(c, "mk")
    if kind in ("miro1", "miro2") and rng.random() < 0.5:
        c["hmu"], c["mu"] = True, f()
    if kind == "flat":
        c["b"] = [[t32(rng.randint(0, n + 1)), f()] for _ in range(rng.randint(0, 5))]
    return c


def g_c28(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        if rng.random() < 0.75:
            nn = size(rng, 12, bigcap=200)
            v = [rng.choice(WILD) if rng.random() < rng.choice([0.1, 0.5, 1]) else rng.gauss(0, 3) for _ in range(nn)]
            if rng.random() < 0.5:
                v = [x if not math.isnan(x) else 0.0 for x in v]
            if rng.random() < 0.15:
                v = [rng.choice([math.nan, -math.inf, math.inf])] * nn
            ids = ids_for(rng, nn)
            so, sm = rng.random() < 0.2, rng.random() < 0.2
            sc.raw("a", ids, v, so, sm, [rng.choice([0.0, 0.5, math.nan, -1.0, math.inf, 1.0]) for _ in range(nn)])
            small = rng.random() < 0.6
            h = [rng.choice((ids or [1])[:2] if small else (ids or [1]) + [9]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 40]))]
            sc.res("r", seed=rng.randrange(1 << 30) if rng.random() < 0.9 else None, hist=h if rng.random() < 0.9 else None)
            if i % 25 == 0:
                sc.res("r", words=[rng.choice([0, -1, -(1 << 31)])], hist=h)
            for j in range(rng.choice([1, 2, 3, 4])):
                x = rng.random()
                if x < 0.15:
                    sc.op(op=rng.choice(["sort", "soft"]), l="a")
                elif x < 0.25:
                    sc.mk(f"s{j}", {"k": "chain", "mem": [wild_cfg(rng, rng.choice(KINDS), nn, len(h)) for _ in range(rng.randint(0, 5))]})
                    sc.run(f"s{j}", "a", "r")
                else:
                    sc.mk(f"s{j}", wild_cfg(rng, rng.choice(KINDS + ["seqrep", "seqrep", "miro1", "miro2", "tailfree"]), nn, len(h)))
                    for _ in range(rng.choice([1, 1, 3])):
                        sc.run(f"s{j}", "a", "r")
        elif rng.random() < 0.4:
            nn = size(rng, 12)
            v = [rng.choice(WILD) for _ in range(nn)]
            o = dict(op="newk", l="a", v=[b(x) for x in v], via=rng.choice(["iter", "fn", "wide", "filter", "chain"]))
            us(o, "n", rng.choice([0, 1, nn, 2147483646] + HUGE))
            sc.op(**o)
            sc.new("b", v)
        else:
            kind = rng.choice(list(OPTS))
            mk_any(sc, rng, "s", kind)
            for _ in range(rng.choice([2, 5])):
                x = rng.random()
                if x < 0.5:
                    s = cfg_string(rng, kind)
                    for _ in range(rng.choice([0, 1, 3])):
                        p = rng.randrange(len(s) + 1)
                        s = s[:p] + rng.choice(["é", "=", ":", "∞", "\u0000", "-", "日本", " ", "nan", "1e999", "\u3000"]) + s[p:]
                    sc.op(op="cfg", s="s", str=s)
                elif x < 0.7:
                    sc.op(op="set", s="s", key=rng.choice(["", "é", "m", key_of(rng, kind), "日"]), val=optval(rng, rng.choice("ufbs")))
                elif x < 0.8:
                    sc.op(op="parse", ty=rng.choice("ufbs"), str=rng.choice(["", " ", "é", "-", "NaN", "infinity", "1e", "9" * 400, "0." + "0" * 500 + "1"]))
                else:
                    sc.op(op="get", s="s", key=rng.choice(["", "é", key_of(rng, kind)]))
        out.append(sc)
    # long histories with every kind of sequence repetition setting
    for h in ([1] * 64, [1, 2] * 32, [1, 2, 3] * 20 + [1, 2], list(range(40)), [1, 1, 2] * 20):
        for ml, tol, mm, ln in ((2, 0, 0, 64), (3, 1, 1, 64), (2, 3, 3, 1000), (5, "18446744073709551615", 2, 64),
                                (2, 2, "18446744073709551615", 64), (2, "18446744073709551615", "18446744073709551615", 60),
                                ("18446744073709551615", 0, 0, "18446744073709551615"), (32, 0, 0, 64), (31, 1, 1, 63)):
            sc = Sc()
            sc.new("a", [1.0, 2.0, 3.0, 4.0])
            sc.res("r", hist=h)
            c = {"k": "seqrep", "f": b(1.0), "s": b(1.0)}
            for k, x in (("ml", ml), ("tol", tol), ("mm", mm), ("ln", ln)):
                us(c, k, x)
            sc.mk("s", c)
            sc.run("s", "a", "r")
            out.append(sc)
    return out


def g_c29(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        if i % 30 == 7:
            busy_share(rng, sc, ["direct", "box", "chain", "topk", "nested", "nest2", "twice"])
            out.append(sc)
            continue
        spies = [0]

        def spy():
            spies[0] += 1
            return {"k": "spy", "id": f"h{spies[0]}", "quiet": rng.random() < 0.5, "acts": ["first"],
                    "wrap": rng.choice(["", "", "box", "box2", "arc", "arcbox", "boxarc", "built", "boxbuilt"])}

        def mem(d):
            out = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                r = rng.random()
                if r < 0.5:
                    out.append(spy())
                elif r < 0.65:
                    s = f"m{sc.n}"
                    sc.mk(s, spy())
                    out.append({"ref": s})
                elif r < 0.75:
                    s = f"sh{sc.n}"
                    c = spy()
                    c["wrap"] = "arc"
                    sc.mk(s, c)
                    for _ in range(rng.choice([1, 2])):
                        out.append({"k": "sref", "s": s})
                elif r < 0.85:
                    out.append({"k": "topk", "n": 3, "mk": 1, "wrap": rng.choice(["", "box", "built"])})
                elif d > 0:
                    out.append({"k": "chain", "mem": mem(d - 1), "how": rng.choice(["push", "add", "addassign"]),
                                "wrap": rng.choice(["", "box", "arc"])})
            return out

        hist = [rng.randint(0, 9) for _ in range(rng.choice([0, 1, 4]))]
        sc.res("r", seed=rng.choice([None, 5]), hist=hist if rng.random() < 0.8 else None)
        r = rng.random()
        if r < 0.15:
            c = spy()
            sc.mk("c", c)
        elif r < 0.3:
            sc.op(op="b_new", b="b")
            for i in range(rng.choice([1, 2, 4])):
                def bs():
                    x = spy()
                    x.pop("wrap")
                    return x
                ty = rng.choice(["static", "single", "chain"])
                sc.op(op="b_push", b="b", name=f"n{i}", ty=ty, fac=bs(),
                      init=[] if ty == "static" else [bs()] if ty == "single" else [bs(), bs()], how="push")
            if rng.random() < 0.5:
                sc.op(op="b_cfg", b="b", name="n0", str="alpha=2")
            sc.op(op="b_chain", b="b", s="c")
        else:
            sc.mk("c", {"k": "chain", "mem": mem(3), "how": rng.choice(["push", "add", "addassign"]),
                        "wrap": rng.choice(["", "", "box", "arc"])})
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.3 and r >= 0.3:
                sc.new("l", [1.0, 2.0, 3.0])
                sc.run("c", "l", "r")
            sc.op(op="hook", s="c", r="r")
        out.append(sc)
    return out


def program(sc, rng, names, ids, vals, hist, plan):
    """emit one copy of a program; returns the event numbers of its steps"""
    S, L, R = names
    ev = []
    for step in plan:
        if step[0] == "run":
            ev.append(sc.run(S, L, R, step[1]))
        elif step[0] == "list":
            ev.append(sc.op(op="raw", l=L, **step[1]))
        elif step[0] == "set":
            ev.append(sc.op(op="set", s=S, key=step[1], val=step[2]))
        elif step[0] == "push":
            ev.append(sc.op(op="push", r=R, toks=step[1]))
        elif step[0] == "soft":
            ev.append(sc.op(op="soft", l=L))
        yield ev[-1]


def g_c30(rng, n):
    out = []
    for _ in range(n):
        same = []
        sc = Sc(same=same)
        nn = rng.choice([3, 5, 8, 20, 40])
        ids = ids_for(rng, nn)
        vals = logits(rng, nn, rng.choice(["norm", "norm", "dup", "ints", "ninf", "equal"]))
        hist = rep_history(rng, ids) if rng.random() < 0.5 else history(rng, ids)
        kind = rng.choice(KINDS + ["chain", "chain", "freq", "seqrep", "seqrep", "freq", "miro1", "miro2", "rand"])
        if kind == "chain":
            cfg = {"k": "chain", "mem": [any_cfg(rng, rng.choice(KINDS), ids, vals, hist) for _ in range(rng.choice([2, 3, 5]))]}
        else:
            cfg = any_cfg(rng, kind, ids, vals, hist)
            if kind in ("freq", "seqrep") and rng.random() < 0.5:
                us(cfg, "ln", 1000)
                cfg.pop("lnx", None)
        seed = rng.randrange(1 << 30)
        e0 = [[t32(i), b(v), 0] for i, v in zip(ids, vals)]

        def newlist():
            vv = logits(rng, nn, rng.choice(["norm", "dup", "ints"]))
            return {"e": [[t32(i), b(v), 0] for i, v in zip(ids, vv)], "fso": False, "fsm": False}

        plan = []
        for _ in range(rng.choice([1, 2, 4, 7])):
            x = rng.random()
            if x < 0.6:
                plan.append(("run", rng.choice("tts")))
            elif x < 0.75:
                plan.append(("list", newlist()))
            elif x < 0.85:
                plan.append(("push", [t32(rng.choice(ids))]))
            elif x < 0.92 and kind != "chain" and OPTS.get(kind):
                k, ty = rng.choice(OPTS[kind])
                plan.append(("set", k, {"t": "u", "d": str(rng.randint(1, 9))} if ty == "u" else {"t": "f", "v": pair(rng.uniform(0.1, 3))}))
            else:
                plan.append(("soft",))
        plan.append(("run", "t"))
        progs = []
        for c in ("A", "B"):
            sc.op(op="raw", l="l" + c, e=e0, fso=False, fsm=False)
            sc.res("r" + c, seed=seed, hist=hist)
            sc.mk("s" + c, cfg)
        mode = rng.choice(["inter", "inter", "thread", "clone", "after"])
        # another sampler used in between
        noise = any_cfg(rng, rng.choice(KINDS), ids, vals, hist)
        sc.mk("n", noise)
        sc.res("rn", seed=seed + 1, hist=hist)

        def noisy():
            for _ in range(rng.choice([0, 1, 1, 3])):
                sc.op(op="raw", l="ln", e=e0, fso=False, fsm=False)
                sc.run("n", "ln", "rn")

        if mode == "inter":
            A = program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan)
            B = program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan)
            for _ in plan:
                a = next(A)
                noisy()
                same.append([a, next(B)])
                noisy()
        elif mode == "after":
            a = list(program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan))
            for _ in range(3):
                noisy()
            same += [list(x) for x in zip(a, program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan))]
        elif mode == "thread":
            a = list(program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan))
            bb = []

            def on_thread():
                noisy()
                bb.extend(program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan))
            sc.thr(on_thread)
            same += [list(x) for x in zip(a, bb)]
        elif mode == "clone" and kind != "chain":
            # run both to the same point, clone A, go on with all three
            k = rng.randint(0, len(plan))
            a = list(program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan[:k]))
            bb = list(program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan[:k]))
            sc.op(op="clone", s="sC", **{"from": "sA"})
            for kk, _ in OPTS.get(kind, [])[:1]:
                same.append([sc.op(op="get", s="sA", key=kk), sc.op(op="get", s="sC", key=kk)])
            sc.op(op="cp", l="lC", **{"from": "lA"})
            # using the clone must not disturb the original: other lists and randomness first
            if rng.random() < 0.5:
                sc.op(op="clone", s="sD", **{"from": "sA"})
                sc.op(op="raw", l="lD", e=e0, fso=False, fsm=False)
                sc.res("rD", seed=seed + 7, hist=hist)
                sc.run("sD", "lD", "rD")
                if OPTS.get(kind):
                    kk, ty = rng.choice(OPTS[kind])
                    sc.op(op="set", s="sD", key=kk, val={"t": "u", "d": "3"} if ty == "u" else {"t": "f", "v": pair(1.5)})
            a2 = list(program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan[k:]))
            b2 = list(program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan[k:]))
            same += [list(x) for x in zip(a + a2, bb + b2)]
            # the clone against a third copy brought to the same point
            sc.op(op="raw", l="lE", e=e0, fso=False, fsm=False)
            sc.res("rE", seed=seed, hist=hist)
            sc.mk("sE", cfg)
            e1 = list(program(sc, rng, ("sE", "lE", "rE"), ids, vals, hist, plan[:k]))
            same += [list(x) for x in zip(a, e1)]
            c2 = list(program(sc, rng, ("sC", "lC", "rE"), ids, vals, hist, plan[k:]))
            same += [[x, y] for x, y in zip(a2, c2)]
        else:
            same += [[a, bb] for a, bb in zip(list(program(sc, rng, ("sA", "lA", "rA"), ids, vals, hist, plan)),
                                              list(program(sc, rng, ("sB", "lB", "rB"), ids, vals, hist, plan)))]
        out.append(sc)
    return out + g_alike(rng, n * 3 // 4)


def alike(rng, e, hist):
    """a list and a history easily taken for e and hist, and the flags"""
    e = [list(x) for x in e]
    hist = list(hist)
    x = rng.random()
    i = rng.randrange(1, len(e))
    if x < 0.3:                                # only the logits of the later entries change places
        vs = [y[1:] for y in e[1:]]
        rng.shuffle(vs)
        e = e[:1] + [[y[0]] + v for y, v in zip(e[1:], vs)]
    elif x < 0.5:                              # the same logits for tokens that change places
        ts = [y[0] for y in e[1:]]
        rng.shuffle(ts)
        e = e[:1] + [[t] + y[1:] for t, y in zip(ts, e[1:])]
    elif x < 0.7:
        e[i][1] = e[rng.randrange(len(e))][1]
    if hist and rng.random() < 0.7:
        y = rng.random()
        j = rng.randrange(len(hist))
        if y < 0.4:
            hist[j] = rng.choice(e)[0]
        elif y < 0.7:
            rng.shuffle(hist)
        else:
            mid = hist[1:-1]
            rng.shuffle(mid)
            hist[1:-1] = mid
    return e, hist


def parts16(rng, first):
    """weights of sixteenths, descending, the first as given"""
    out, left = [first], 16 - first
    while left:
        x = rng.randint(1, min(left, out[-1]))
        out.append(x)
        left -= x
    return out


def g_alike(rng, n):
    """C30: between the steps of two equal samplers a third runs on what looks
    like their list and history"""
    out = []
    for k in range(n):
        kind = KINDS[k % len(KINDS)]
        same = []
        sc = Sc(same=same)
        if rng.random() < 0.5:
            # exact probabilities with the same first and the same length
            first = rng.choice([4, 4, 5, 6])
            ws = [parts16(rng, first) for _ in range(60)]
            nn = len(ws[0])
            ws = [w for w in ws if len(w) == nn]
            ids = ids_for(rng, nn)
            mk = lambda w: [[t32(i), b(f32(math.log(x / 16))), b(x / 16)] for i, x in zip(ids, w)]
            es, flags = [mk(w) for w in ws], dict(fso=True, fsm=True)
        else:
            nn = rng.choice([3, 5, 9, 33])
            ids = ids_for(rng, nn)
            es, flags = [[[t32(i), b(v), 0] for i, v in zip(ids, logits(rng, nn, rng.choice(["norm", "ints"])))]], dict(fso=False, fsm=False)
        vals = [0.0] * nn
        hist = [t32(x) for x in (rep_history(rng, ids) if rng.random() < 0.6 else history(rng, ids))]
        cfg = any_cfg(rng, kind, ids, vals, hist, sane=True)
        if k % 4 and "mk" in cfg:              # settings that do something
            cfg.pop("mkx", None)
            cfg["mk"] = 1
            for x in ("p", "z"):
                if x in cfg:
                    cfg[x] = b(f32(rng.uniform(0.2, 0.9)))
        seed = rng.randrange(1 << 30)
        for q in "AB":
            sc.mk("s" + q, cfg)
            sc.res("r" + q, seed=seed, hist=hist)
        sc.mk("n", cfg)
        e = es[0]

        def noisy():
            for _ in range(rng.choice([1, 1, 2])):
                x, h = alike(rng, rng.choice(es[1:] or es), hist)
                sc.res("rn", seed=seed, hist=h)
                sc.op(op="raw", l="ln", e=x, **(flags if x in es else dict(fso=False, fsm=False)))
                sc.run("n", "ln", "rn")

        noisy_first = k % 2
        for _ in range(rng.choice([2, 4, 6])):
            ev = []
            for q in "AB":
                sc.op(op="raw", l="l" + q, e=e, **(flags if e in es else dict(fso=False, fsm=False)))
                if q == "B" or noisy_first:
                    noisy()
                ev.append(sc.run("s" + q, "l" + q, "r" + q))
            same.append(ev)
            e = rng.choice(es)
            if rng.random() < 0.4:
                e = alike(rng, e, hist)[0]
        out.append(sc)
    return out


def g_c31(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        kinds = list(KINDS)
        rng.shuffle(kinds)
        for k in kinds:
            for v in range(rng.choice([1, 2])):
                s = f"{k}{v}"
                c = plain_cfg(rng, k)
                if rng.random() < 0.3:
                    c["how"] = "default"
                if rng.random() < 0.3:
                    c["wrap"] = "built"
                sc.mk(s, c)
                sc.op(op="md", s=s)
                if rng.random() < 0.5:
                    for key, ty in OPTS[k]:
                        val = {"t": "u", "d": str(rng.randint(0, 9))} if ty == "u" else {"t": "f", "v": pair(fval(rng) + 0.0)}
                        sc.op(op="set", s=s, key=key, val=val, adv=True)
                    if rng.random() < 0.4:
                        sc.op(op="cfg", s=s, str=cfg_string(rng, k))
                    if rng.random() < 0.4:
                        sc.res("r", seed=3, hist=[1, 2, 1, 2])
                        sc.new("l", [1.0, 0.5, 2.0])
                        sc.run(s, "l", "r")
                    sc.op(op="md", s=s)
        out.append(sc)
    return out


HOOKS = ["hlog", "hswap", "hveto", "hderive", "hpost"]


def hooked(rng, i=0):
    return {"k": "hspy", "hooks": rng.choice(HOOKS), "id": f"h{i}", "quiet": True, "acts": ["none"],
            "table": rng.choice(["full", "full", "full", "full", "one", "none", "hid"])}


def h_key(rng, c):
    if c["table"] == "hid":
        k = rng.choice(HID)[0]
        return k if rng.random() < 0.6 else k[: rng.randint(0, len(k))]
    return key_of(rng, "spy")


def h_type(rng, c, key):
    tab = HID if c["table"] == "hid" else OPTS["spy"]
    m = [t for k, t in tab if k == key] or [t for k, t in tab if k.startswith(key)] or ["u"]
    return m[0] if rng.random() < 0.8 else rng.choice("ufbs")


def h_string(rng, c):
    if c["table"] != "hid":
        return good_string(rng, "spy") if rng.random() < 0.6 else cfg_string(rng, "spy")
    parts = []
    for _ in range(rng.choice([1, 2, 3])):
        k = h_key(rng, c)
        parts.append(f"{k}={num_string(rng, h_type(rng, c, k))}")
    return ":".join(parts)


def g_c32(rng, n):
    out = []
    for i in range(n):
        sc = Sc()
        if i % 4 == 3:
            sc.op(op="b_new", b="b")
            slots = []
            for j in range(rng.choice([1, 2, 3])):
                c = hooked(rng, j) if rng.random() < 0.8 else slot_cfg(rng, j)
                ty = rng.choice(["single", "single", "chain", "static"])
                init = [hooked(rng, 10 + j) for _ in range(rng.choice([0, 1, 2] if ty == "chain" else [0, 1]))] if ty != "static" else []
                sc.op(op="b_push", b="b", name=f"n{j}", ty=ty, fac=c, init=init, how=rng.choice(["push", "add", "from"]))
                slots.append((f"n{j}", init[0] if ty == "single" and init else c, ty))
            for _ in range(rng.choice([1, 3, 5])):
                if rng.random() < 0.15:
                    sc.op(op="b_ensure", b="b", i=rng.randrange(len(slots)))
                    continue
                name, c, ty = rng.choice(slots)
                s = h_string(rng, c) if c["k"] == "hspy" else good_string(rng, c["k"])
                sc.op(op="b_cfg", b="b", name=name if rng.random() < 0.95 else "nope", str=s)
            out.append(sc)
            continue
        if i % 16 == 1:
            # the library's own hooks: Mirostat's
            k = rng.choice(["miro1", "miro2"])
            sc.mk("s", plain_cfg(rng, k))
            for _ in range(rng.choice([2, 4])):
                if rng.random() < 0.5:
                    key, ty = rng.choice(OPTS[k])
                    sc.op(op="set", s="s", key=key, val=optval(rng, ty))
                else:
                    sc.op(op="cfg", s="s", str=good_string(rng, k))
            out.append(sc)
            continue
        cs = []
        for j in range(rng.choice([1, 1, 2])):
            c = hooked(rng, j)
            w = rng.choice(["", "", "built"])
            sc.mk(f"s{j}", dict(c, wrap=w) if w else c)
            cs.append(c)
        for _ in range(rng.choice([2, 4, 8])):
            j = rng.randrange(len(cs))
            c = cs[j]
            r = rng.random()
            key = h_key(rng, c)
            if r < 0.5:
                sc.op(op="set", s=f"s{j}", key=key, val=optval(rng, h_type(rng, c, key)))
            elif r < 0.6:
                sc.op(op="get", s=f"s{j}", key=key)
            else:
                sc.op(op="cfg", s=f"s{j}", str=h_string(rng, c))
        out.append(sc)
    return out


NEWKEYS = {"topk": ["k", "min_keep"], "miro1": ["n_vocab", "tau", "eta"], "miro2": ["tau", "eta"]}


def given(key, v):
    """a constructor's argument or a builder method's, for the harness"""
    return {"key": key, "val": {"t": v["t"], "v": v.get("v", [0, 0]), "d": list(v.get("d", "")), "b": False}}


def g_c33(rng, n):
    out = []
    kinds = [k for k in KINDS if k in OPTS and OPTS[k]]
    for i in range(n):
        if i % 3 == 2:
            # made by methods, or by default and then set: they do the same
            same = []
            sc = Sc(same=same)
            kind = rng.choice(kinds)
            ids, vals = put_list(sc, rng, "l1")
            sc.op(op="cp", l="l2", **{"from": "l1"})
            hist = rep_history(rng, ids)
            seed = rng.randrange(1 << 30)
            for r in ("r1", "r2"):
                sc.res(r, seed=seed, hist=hist)
            keys = list(NEWKEYS.get(kind) or [k for k, _ in OPTS[kind]])
            new = rng.random() < 0.5

            def some(key):
                c = any_cfg(rng, kind, ids, vals, hist)
                f = FIELD.get(key, key)
                if key == "mu" and not c.get("hmu"):
                    return {"t": "f", "v": pair(rng.uniform(0, 12))}
                if dict(OPTS[kind])[key] == "u":
                    return {"t": "u", "d": c.get(f + "x", str(c[f]))}
                return {"t": "f", "v": pair(unb(c[f]) + 0.0)}
            args = [(k, some(k)) for k in keys] if new else []
            calls = [(k, some(k)) for k in rng.choices([k for k, _ in OPTS[kind]], k=rng.choice([1, 2, 4, 8]))]
            sc.mk("s1", {"k": kind, "how": "calls", "from": "new" if new else "default",
                         "args": [given(*a) for a in args], "calls": [given(*a) for a in calls]})
            sc.mk("s2", dict(any_cfg(rng, kind, ids, vals, hist), how="default"))
            for k, v in args + calls:
                sc.op(op="set", s="s2", key=k, val=v)
            k = rng.choice(OPTS[kind])[0]
            same.append([sc.op(op="get", s="s1", key=k), sc.op(op="get", s="s2", key=k)])
            for _ in range(rng.choice([1, 2])):
                m = rng.choice("ts")
                i1 = sc.run("s1", "l1", "r1", m)
                i2 = sc.run("s2", "l2", "r2", m)
                same.append([i1, i2])
            out.append(sc)
            continue
        sc = Sc()
        for j in range(rng.choice([1, 4, 10])):
            kind = rng.choice(kinds)
            tab = OPTS[kind]
            new = rng.random() < 0.5

            def arg(key):
                return given(key, optval(rng, dict(tab)[key]))
            c = {"k": kind, "how": "calls", "from": "new" if new else "default",
                 "args": [arg(k) for k in NEWKEYS.get(kind) or [k for k, _ in tab]] if new else [],
                 "calls": [arg(rng.choice(tab)[0]) for _ in range(rng.choice([0, 0, 1, 2, 3, 6, 12]))]}
            if rng.random() < 0.2:
                c["wrap"] = "built"
            sc.mk(f"s{j}", c)
            r = rng.random()
            key, ty = rng.choice(tab)
            if r < 0.6:
                sc.op(op="get", s=f"s{j}", key=key)
            elif r < 0.8:
                sc.op(op="set", s=f"s{j}", key=key, val=optval(rng, ty))
            else:
                sc.op(op="cfg", s=f"s{j}", str=good_string(rng, kind))
        out.append(sc)
    return out


RAISES = ["fail", "intr", "intr0", "lack", "lackrng", "bad", "badlist", "rand", "weights", "pickfail"]
MILD = [{"k": "temp", "t": b(0.5)}, {"k": "topk", "n": 4, "mk": 2}, {"k": "topp", "p": b(0.9), "mk": 2}, {"k": "greedy"},
        {"k": "rand"}, {"k": "freq", "f": b(0.5), "p": b(0.25), "ln": 8}, {"k": "rep", "pen": b(1.5), "ln": 8},
        {"k": "seqrep", "f": b(0.5), "s": b(0.25), "ml": 2, "tol": 0, "mm": 1, "ln": 64},
        {"k": "miro2", "tau": b(3.0), "eta": b(0.1)}, {"k": "flat", "b": [[1, b(1.0)]]}]
SEP_KEYS = ["", "x", "alp", "a", "lock", "m", "mi", "p", "P", "tau ", "l", "al", "alpha", "be", "na", "k", "frequency", "f", "mo", "zed", "long"]


def raiser(rng, i):
    """a sampler of the user's own that fails now and then"""
    acts = [rng.choice(RAISES) if rng.random() < 0.45 else rng.choice(["none", "first", "last"]) for _ in range(rng.choice([1, 2, 3]))]
    return {"k": "spy", "id": f"e{i}", "acts": acts, "table": "full"}


def err_chain(rng, depth, count):
    """nested chains of such samplers and the library's"""
    mem = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        if depth and r < 0.25:
            mem.append(dict(k="chain", mem=err_chain(rng, depth - 1, count), how=rng.choice(["push", "add", "addassign"]),
                            wrap=rng.choice(["", "box", "arc"])))
        elif r < 0.7:
            count[0] += 1
            mem.append(dict(raiser(rng, count[0]), wrap=rng.choice(["", "", "box", "arc", "built", "boxarc", "box2", "arcbox", "boxbuilt"])))
        else:
            mem.append(dict(rng.choice(MILD), wrap=rng.choice(["", "box", "arc", "built"])))
    return mem


def bad_part(rng, tab):
    """a setting, more often than not with something wrong about it"""
    key, ty = rng.choice(tab) if tab else ("x", "u")
    r = rng.random()
    if r < 0.25:
        key = rng.choice([key[: rng.randint(0, len(key))], key + "x", key.upper(), "", rng.choice(SEP_KEYS)])
    v = num_string(rng, ty if r < 0.8 else rng.choice("ufbs"))
    return ws(rng) + key + ws(rng) + "=" + v.replace(":", "")


def g_errs(rng, n):
    out = []
    for i in range(n):
        x = i % 8
        if x < 3:
            # errors of samplers, through everything they may be wrapped in
            sc = Sc(spies=True)
            ids, vals = [0, 1, 2, 3, 4, 5], [rng.uniform(-3, 3) for _ in range(6)]
            sc.res("r", seed=rng.randrange(1 << 30), hist=[0, 1, 2, 0, 1])
            cnt = [0]
            how = rng.random()
            if how < 0.2:
                sc.mk("s", dict(raiser(rng, 0), wrap=rng.choice(["", "box", "arc", "built", "boxarc", "box2", "arcbox", "boxbuilt"])))
            elif how < 0.4:
                sc.op(op="b_new", b="b")
                for j in range(rng.choice([1, 2, 4])):
                    c = raiser(rng, j) if rng.random() < 0.7 else dict(rng.choice([m for m in MILD if m["k"] in OPTS and OPTS[m["k"]]]))
                    ty = rng.choice(["static", "single", "chain"])
                    sc.op(op="b_push", b="b", name=f"n{j}", ty=ty, fac=c, init=[c] if ty != "static" and rng.random() < 0.6 else [],
                          how="push")
                    if ty != "static":
                        sc.op(op="b_ensure", b="b", i=j)
                sc.op(op="b_chain", b="b", s="s")
            else:
                sc.mk("s", {"k": "chain", "mem": err_chain(rng, 2, cnt), "how": rng.choice(["push", "add", "addassign"]),
                            "wrap": rng.choice(["", "box", "arc"])})
            for _ in range(rng.choice([1, 2, 4])):
                sc.raw("l", ids, vals)
                sc.run("s", "l", "r", rng.choice(["t", "s", "lt", "ls"]))
        elif x == 3:
            # errors of resources
            sc = Sc()
            cfgs = [dict(c) for c in rng.sample(MILD, 3)] + [{"k": "miro1", "tau": b(3.0), "eta": b(0.1), "m": 40, "nv": 50}, {"k": "rand"}]
            sc.res("r", kind="sick", seed=rng.randrange(5))
            for j, c in enumerate(cfgs):
                w = rng.choice(["", "box", "arc", "built"])
                w = {} if c["k"] in ("flat", "greedy", "rand") and w == "built" else {"wrap": w}
                if rng.random() < 0.3:
                    c = {"k": "chain", "mem": [dict(c, **w)], "how": "push"}
                else:
                    c = dict(c, **w)
                sc.mk(f"s{j}", c)
                sc.new("l", [rng.uniform(-3, 3) for _ in range(6)])
                sc.run(f"s{j}", "l", "r", rng.choice(["t", "s", "lt", "ls"]))
        elif x == 4:
            sc = Sc()
            for _ in range(6):
                what = rng.choice(["logit", "list", "any", "anyctx", "ctx", "missing", "internal", "nan", "intr"])
                arg = (str(rng.choice([0, 1, 7, 10, 300, 4000])) if what == "nan" else
                       str(rng.choice([0, 1, 65535, 65536, 4294967295, 4294967296, 18446744073709551615])) if what == "logit" else
                       " ".join(str(rng.choice([0, 1, 77, 4294967295])) for _ in range(rng.choice([1, 2, 5]))) if what == "intr" else
                       rng.choice(["rng", "last_tokens", "a b", "", "x" * 60, "Ünï {}", "%s", "a: b", "\n"]))
                sc.op(op="conv", what=what, arg=arg)
        else:
            sc = Sc()
            kind = rng.choice(KINDS + ["spy", "spy8", "hid", "hspy", "hspy"])
            tab = HID if kind == "hid" else OPTS["spy"] if kind in ("spy8", "hspy", "spy") else OPTS[kind]
            if kind == "spy8":
                mk_any(sc, rng, "s", kind)
                tab = OPTS["spy"]
            else:
                c = ({"k": "spy", "id": "sp", "quiet": True, "acts": ["none"], "table": "hid" if kind == "hid" else "full"}
                     if kind in ("hid", "spy") else dict(hooked(rng), table="full") if kind == "hspy" else plain_cfg(rng, kind))
                if x < 6:
                    sc.mk("s", c)
                else:
                    if kind in ("flat", "greedy", "rand") and rng.random() < 0.5:
                        c = {"k": "temp", "t": b(0.5)}
                        tab = OPTS["temp"]
                    sc.op(op="b_new", b="b")
                    names = ["one", "min_p", "", "two words", "on", "k=v", "ONE"]
                    for j, ty in enumerate(rng.choices(["static", "single", "chain"], k=3)):
                        sc.op(op="b_push", b="b", name=names[rng.randrange(7)], ty=ty, fac=c,
                              init=[c] if ty == "single" and rng.random() < 0.5 else [], how="push")
                    for _ in range(4):
                        sc.op(op="b_cfg", b="b", name=rng.choice(names), str=":".join(bad_part(rng, tab) for _ in range(rng.choice([1, 2, 4]))))
                    out.append(sc)
                    continue
            for _ in range(rng.choice([2, 4])):
                key, ty = rng.choice(tab) if tab else ("x", "u")
                if rng.random() < 0.6:
                    key = rng.choice([key[: rng.randint(0, len(key))], key + "x", rng.choice(SEP_KEYS).strip()])
                r = rng.random()
                if r < 0.3:
                    sc.op(op="get", s="s", key=key)
                elif r < 0.65:
                    sc.op(op="set", s="s", key=key, val=optval(rng, ty if rng.random() < 0.7 else rng.choice("ufbs")))
                else:
                    sc.op(op="cfg", s="s", str=":".join(bad_part(rng, tab) for _ in range(rng.choice([1, 1, 2, 4]))))
        out.append(sc)
    return out


def g_c34(rng, n):
    q = n // 6
    return g_errs(rng, n) + g_c24(rng, q)[:q] + g_c25(rng, q) + g_c26(rng, q) + g_c32(rng, q)


def g_c35(rng, n):
    """programs of several samplers, lists and resources, with looks at
    everything in between"""
    out = []
    for i in range(n):
        sc = Sc()
        nn = rng.choice([1, 2, 3, 5, 8, 20])
        ids = ids_for(rng, nn)
        vals = logits(rng, nn, rng.choice(["norm", "dup", "ints", "ninf"]))
        hist = rep_history(rng, ids) if rng.random() < 0.5 else history(rng, ids)
        ls, rs, ss = ["a", "b", "n"][: rng.choice([1, 2, 3])], ["r", "q"], []

        def fresh(l):
            v = logits(rng, nn, rng.choice(["norm", "dup", "ints", "ninf"]))
            if l == "n":
                v[rng.randrange(nn)] = float("nan")
            sc.raw(l, ids, v, so=False, sm=False)
        for l in ls:
            fresh(l)
        for r in rs:
            sc.res(r, seed=rng.randrange(1 << 30) if rng.random() < 0.85 else None,
                   hist=hist if rng.random() < 0.85 else None)
        kinds = []
        for j in range(rng.choice([1, 2, 4])):
            k = KINDS[(i + j) % len(KINDS)] if j < 2 else rng.choice(KINDS)
            c = any_cfg(rng, k, ids, vals, hist)
            if rng.random() < 0.3:
                c["wrap"] = "built"
            sc.mk(f"s{j}", c)
            ss.append(f"s{j}")
            kinds.append(k)
        single = list(zip(ss, kinds))
        for j in range(rng.choice([0, 1, 1, 2])):
            mem = [{"ref": rng.choice(ss)} if rng.random() < 0.6 else any_cfg(rng, rng.choice(KINDS), ids, vals, hist)
                   for _ in range(rng.choice([0, 1, 2, 4]))]
            # each shared sampler once: a sampler cannot be inside itself
            seen, keep = set(), []
            for m in mem:
                if "ref" in m and m["ref"] in seen or m.get("ref", "s").startswith("c"):
                    continue
                seen.add(m.get("ref"))
                keep.append(m)
            sc.mk(f"c{j}", {"k": "chain", "mem": keep, "how": rng.choice(["push", "add", "addassign"])})
            ss.append(f"c{j}")
        sc.op(op="look")
        for _ in range(rng.choice([2, 4, 8])):
            x = rng.random()
            if x < 0.6:
                for _ in range(rng.choice([1, 1, 2])):
                    sc.run(rng.choice(ss), rng.choice(ls), rng.choice(rs + ["r", None]), rng.choice(["t", "t", "s", "lt", "ls"]))
            elif x < 0.68:
                sc.op(op=rng.choice(["sort", "soft"]), l=rng.choice(ls))
            elif x < 0.75:
                sc.op(op="push", r=rng.choice(rs), toks=[t32(rng.choice(ids))] * rng.choice([1, 1, 3]))
            elif x < 0.8:
                sc.op(op="hook", s=rng.choice(ss), r=rng.choice(rs))
            elif x < 0.95:
                s, k = rng.choice(single)
                if not OPTS.get(k):
                    continue
                key, ty = rng.choice(OPTS[k])
                val = rng.choice([{"t": "u", "d": str(rng.randint(0, 99))}, {"t": "f", "v": pair(rng.uniform(-1, 5))}]) \
                    if rng.random() < 0.2 else {"t": "u", "d": str(rng.randint(0, 99))} if ty == "u" else {"t": "f", "v": pair(rng.uniform(-1, 5))}
                if rng.random() < 0.3:
                    sc.op(op="get", s=s, key=key)
                elif rng.random() < 0.3:
                    sc.op(op="cfg", s=s, str=f"{key}={rng.randint(0, 9)}")
                else:
                    sc.op(op="set", s=s, key=key, val=val)
            else:
                fresh(rng.choice(ls))
            sc.op(op="look")
        out.append(sc)
    return out


GEN = {
    "C01": (g_c01, 900), "C02": (g_c02, 900), "C03": (g_c03, 900), "C04": (g_c04, 1000),
    "C05": (filter_prop(["topk"]), 1200), "C06": (filter_prop(["topp"]), 1200),
    "C07": (filter_prop(["minp", "topa"]), 1500), "C08": (filter_prop(["loctyp"]), 1000),
    "C09": (filter_prop(["tailfree"]), 1200), "C10": (g_miro("miro2"), 900), "C11": (g_miro("miro1"), 900),
    "C12": (g_c12, 1200), "C13": (g_c13, 900), "C14": (g_c14, 900), "C15": (g_c15, 1200),
    "C16": (g_pen("rep"), 1200), "C17": (g_pen("freq"), 1200), "C18": (g_pen("seqrep"), 1500),
    "C19": (g_c19, 1200), "C20": (g_c20, 900), "C21": (g_c21, 1200), "C22": (g_c22, 120),
    "C23": (g_c23, 1200), "C24": (g_c24, 700), "C25": (g_c25, 900), "C26": (g_c26, 700),
    "C27": (g_c27, 1200), "C28": (g_c28, 1500), "C29": (g_c29, 900), "C30": (g_c30, 500),
    "C31": (g_c31, 25), "C32": (g_c32, 900), "C33": (g_c33, 900), "C34": (g_c34, 1000), "C35": (g_c35, 900),
}


def generate(prop, seed, scale=1.0):
    rng = random.Random(f"{prop}:{seed}")
    fn, n = GEN[prop]
    scs = fn(rng, max(1, int(n * scale)))
    return [s.out(f"g{i}") for i, s in enumerate(scs)]


if __name__ == "__main__":
    import json
    import sys
    for s in generate(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1):
        print(json.dumps(s))
