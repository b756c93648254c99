"""Sizes.  A change of behaviour may need a list, history, chain, setting or
run of a certain length to show, so every property is also exercised on a
ladder of lengths around the ones programmers choose."""
import math

from gen import HOOKS, OPTS, RAISES, any_cfg, fval, optval, history, logits, miro_cfg, pen_cfg
from util import *

SIZES = [6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 100, 127, 128, 129, 160, 200,
         255, 256, 257, 320, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025]
LONG = [1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 10000]
HIST = [6, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 80, 100, 127, 128, 129, 130, 200, 255, 256, 257,
        300, 400, 511, 512, 513, 600]
MODES = ["t", "s", "t", "lt", "t", "ls", "s"]


def biglist(sc, rng, l, n, style):
    """a list of n entries in one of several states"""
    kind = {0: "norm", 1: "norm", 2: "dup", 3: "ninf", 4: "norm", 5: "lin"}[style % 6]
    v = logits(rng, n, kind) if style >= 0 else [f32(rng.gauss(0, 0.4)) for _ in range(n)]   # -6: nearly even
    if style < -6 and n:
        # nearly in order: two neighbours swapped, two runs interleaved, upside down, down and up
        v.sort(key=lambda x: -x)
        i = rng.randrange(max(1, n - 1))
        v = [v[:i] + v[i:i + 2][::-1] + v[i + 2:],
             [x for k in range(0, n // 2) for x in (v[k + n - n // 2], v[k])][::-1] + v[n // 2:n - n // 2],
             v[::-1],
             v[::2] + v[1::2][::-1]][(-7 - style) % 4]
    elif style < 0 and n:
        i = v.index(max(v))
        v[i], v[-1] = v[-1], v[i]
    ids = ids_for(rng, n, ["shuf", "mid", "big", "pos", "shuf", "edge"][style % 6])
    so = style >= 0 and style % 6 in (1, 5)
    if so:
        v.sort(key=lambda x: -x)
    sc.raw(l, ids, v, so, False)
    if style >= 0 and style % 6 == 4:
        sc.op(op="soft", l=l)
    return ids, v


def explicit(rng, kind, n, vals):
    """settings that cut a list of n in telling places"""
    if kind == "topk":
        return [{"k": "topk", "n": k, "mk": m} for k, m in
                ((max(1, n // 8), 0), (n // 2, 1), (n - 1, 1), (1, n // 4), (n // 2 + 1, 0))]
    ps = sorted(softmax(vals), reverse=True)
    cum, c = [], 0.0
    for p in ps:
        c += p
        cum.append(c)
    at = lambda i: cum[min(len(cum) - 1, max(0, i))] - ps[min(len(cum) - 1, max(0, i))] / 2
    mks = [0, 1, rng.choice([1, n // 2]), rng.choice([2, n // 3])]
    rng.shuffle(mks)
    mk = mks[0]
    if kind in ("topp", "loctyp"):
        return [{"k": kind, "p": b(x), "mk": mks.pop()} for x in (at(n // 8), at(n // 2), at(n // 3), at(n - 2))]
    if kind == "tailfree":
        return [{"k": kind, "z": b(x), "mk": mks.pop()} for x in (0.3, 0.8, 0.95, 0.99)]
    if kind == "minp":
        return [{"k": kind, "p": b(math.sqrt(ps[i] * ps[i + 1]) / ps[0]), "mk": mk} for i in (n // 8, n // 2, n - 2) if ps[i + 1] > 0]
    if kind == "topa":
        return [{"k": kind, "a1": b(math.sqrt(ps[i] * ps[i + 1]) / ps[0] ** 2), "a2": b(2.0), "mk": mk}
                for i in (n // 8, n // 2) if ps[i + 1] > 0] + [{"k": kind, "a1": b(0.2), "a2": b(1.0), "mk": mk}]
    return []


def lists_ladder(kinds, tries=4, rot=2, cap=None):
    """every length: some states of the list, and samplers of these kinds"""
    def gen(rng, deep):
        out = []
        for i, n in enumerate(SIZES + (LONG if deep else [])):
            if cap and n > cap:
                continue
            near = [-7 - q for q in range(4)] if n in (9, 33, 320, 700) else []
            for j in list(range(4 * rot if deep else rot)) + near:
                sc = Sc()
                ids, v = biglist(sc, rng, "a", n, j if j < 0 else (j + i) if rot >= 6 else 3 * j + i)
                j = max(j, 0)
                hist = history(rng, ids, n=rng.choice([8, 40]))
                sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
                cfgs = []
                for q in range(min(len(kinds), tries) if len(kinds) > 1 else 1):
                    k = kinds[(i * tries + j + q) % len(kinds)]
                    ex = explicit(rng, k, n, v)
                    rng.shuffle(ex)
                    cfgs += ex[: max(1, tries // max(1, min(len(kinds), tries)) - 1)]
                    if not ex or len(kinds) == 1:
                        cfgs.append(any_cfg(rng, k, ids, v, hist))
                if n > 600 and not deep:
                    cfgs = cfgs[:2]
                for q, c in enumerate(cfgs):
                    sc.op(op="try", l="a", r="r", cfg=dict(c, how="new" if q % 2 else "with"), m=MODES[(i + q) % 7])
                out.append(sc)
        return out
    return gen


def vocab(kinds, sizes=(5000, 20000, 70000), per=4, tries=3):
    """lists as long as vocabularies are: every one of these kinds of sampler"""
    def gen(rng, deep):
        out = []
        for i, n in enumerate(sizes + ((33000, 131073) if deep and len(kinds) <= 2 else ())):
            for j in list(range(0, len(kinds), per)) + [-6] * (n == 70000 and len(kinds) <= 2):
                sc = Sc()
                ids, v = biglist(sc, rng, "a", n, i + j if j >= 0 else j)
                j = max(j, 0)
                hist = history(rng, ids, n=40)
                sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
                for q, k in enumerate(kinds[j:j + per]):
                    ex = explicit(rng, k, n, v)
                    rng.shuffle(ex)
                    for c in ex[: max(1, tries // len(kinds))] or [any_cfg(rng, k, ids, v, hist)]:
                        sc.op(op="try", l="a", r="r", cfg=dict(c, how="new" if q % 2 else "with"), m=MODES[(i + q) % 7])
                out.append(sc)
        return out
    return gen


def typical_tail(rng, deep):
    """C08: a few likely tokens whose ranking depends on the entropy of a long tail"""
    out = []
    for n in (600, 5000, 70000):
        for tail in (0.05, 0.2):
            head = [0.75 ** i for i in range(12)]
            h = sum(head)
            ps = [x / h * (1 - tail) for x in head] + [tail / (n - 12) * math.exp(rng.gauss(0, 0.2)) for _ in range(n - 12)]
            v = [f32(math.log(x)) for x in ps]
            rng.shuffle(v)
            sc = Sc()
            sc.raw("a", ids_for(rng, n, "shuf"), v, False, False)
            for x in (0.12, 0.3, 0.55) if n < 70000 else (rng.choice([0.12, 0.3]),):
                sc.op(op="try", l="a", cfg={"k": "loctyp", "p": b(x), "mk": rng.choice([0, 1]), "how": "new"}, m="t")
            out.append(sc)
    return out


def ops_ladder(rng, deep):
    """C03: sorting and computing probabilities"""
    out = []
    for i, n in enumerate(SIZES + (LONG if deep else []) + [20000, 70000]):
        for j in range((6 if deep else 2) if n < 20000 else 1):
            sc = Sc()
            biglist(sc, rng, "a", n, 3 * j + i)
            for o in (["sort", "soft", "soft"] if (i + j) % 2 else ["soft", "soft"])[: 3 if n < 600 else 2]:
                sc.op(op=o, l="a")
            out.append(sc)
    for n in (300, 5000, 70000):
        sc = Sc()
        biglist(sc, rng, "a", n, -6)
        sc.op(op="soft", l="a")
        out.append(sc)
    return out


def flat_ladder(rng, deep):
    """C15: long lists and many biases"""
    out = []
    for i, n in enumerate(SIZES + (LONG if deep else []) + [20000, 70000]):
        sc = Sc()
        ids, v = biglist(sc, rng, "a", n, i)
        for m in (n, 2 * n, 3) if n < 20000 else (300,):
            bs = [[t32(rng.choice(ids)), b(rng.choice([1.0, -2.5, 0.25, -math.inf]))] for _ in range(min(m, 600))]
            sc.op(op="try", l="a", cfg={"k": "flat", "b": bs, "how": rng.choice(["new", "with"])}, m=MODES[i % 7])
        out.append(sc)
    return out


def long_history(rng, n, ids):
    """a history of n tokens that repeats its own end, near or far"""
    h = [rng.choice(ids) for _ in range(n)]
    m = rng.choice([2, 3, 4, 6, 10, 20, 33, 65])
    m = min(m, n // 2)
    if m >= 1:
        end = h[n - m:]
        at = rng.choice([0, rng.randrange(0, n - 2 * m + 1), max(0, n - 2 * m - 1)])
        h[at:at + m] = end
        h = h[:n]
        h[n - m:] = end
    return h


def hist_ladder(kind):
    """C16-C18: long histories"""
    def gen(rng, deep):
        out = []
        # (sequence repetition takes quadratic time in its window)
        far = [1024, 2049, 20000] if kind == "seqrep" else [1024, 4097, 20000, 70000]
        for i, n in enumerate(HIST + ([800, 1000, 1500, 2048] if deep else []) + far):
            for j in range(4 if deep else 2):
                sc = Sc()
                nn = rng.choice([4, 8, 20])
                ids, v = biglist(sc, rng, "a", nn, i + j)
                pool = list(ids) + [77777]
                if (i + j) % 2:
                    # tokens that share bits with those of the list
                    like = [x ^ m for x in ids[2:] for m in (1 << 8, 1 << 16, 1 << 24, 1 << 31)]
                    pool = list(ids[:2]) + [x for x in like if x not in ids]
                h = long_history(rng, n, pool[: rng.choice([2, 3, nn])] if j else pool)
                sc.res("r", hist=h)
                for q in range(4):
                    c = hist_cfg(rng, kind, n, q)
                    us(c, "ln", ([64, 200, 300] * 2 if kind == "seqrep" and n > 3000 else [n, n + 1, n - 1, 64, 1000, n // 2])[(i + q) % 6])
                    sc.op(op="try", l="a", r="r", cfg=c, m=MODES[(i + q) % 7])
                out.append(sc)
        return out
    return gen


def hist_cfg(rng, kind, n, q):
    c = pen_cfg(rng, kind, n)
    c.pop("lnx", None)
    if kind == "rep":
        c["pen"] = b([1.5, 2.0, 1.1][q % 3])
    elif kind == "freq":
        c["f"], c["p"] = b([0.5, 0.0, 0.25, 1.0][q % 4]), b([0.0, 0.75, 0.5, 0.25][q % 4])
    else:
        c["f"], c["s"] = b([0.5, 0.25, 0.0, 1.0][q % 4]), b([0.25, 0.5, 1.0, 0.0][q % 4])
        for f in ("ml", "tol", "mm"):
            c.pop(f + "x", None)
        c["ml"] = rng.choice([2, 2, 3, 5, max(2, n // 8), max(2, n // 3)])
        c["tol"] = rng.choice([0, 0, 0, 1, 2]) if n <= 130 else rng.choice([0, 0, 1])
        c["mm"] = rng.choice([0, 1, 2, 3])
        if n > 300:
            c["tol"] = 0
    return c


def edge_ladder(kind):
    """C16-C18: tokens met once only, just inside and just outside the window"""
    def gen(rng, deep):
        out = []
        for i, n in enumerate(HIST + ([800, 1024, 2048] if deep else []) + ([] if kind == "seqrep" else [10000])):
            for ln in {1, 2, n // 4, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, 2 * n} if n > 8 else {1, 3, n - 1, n}:
                sc = Sc()
                ids = ids_for(rng, 8, "shuf")
                sc.raw("a", ids, logits(rng, 8, "norm"))
                fill = 90001
                h = [fill] * n
                if kind == "seqrep":
                    # the end of the history, followed by something at both edges
                    x, y = 90002, 90003
                    for t, at in ((ids[0], n - ln - 2), (ids[1], n - ln - 1), (ids[2], n - ln), (ids[3], n - ln + 1), (ids[4], n // 2)):
                        if 0 <= at and at + 2 < n - 2:
                            h[at:at + 3] = [x, y, t]
                    h[n - 2:] = [x, y]
                else:
                    for t, at in ((ids[0], n - ln - 2), (ids[1], n - ln - 1), (ids[2], n - ln), (ids[3], n - ln + 1),
                                  (ids[4], n - 1), (ids[5], 0), (ids[6], n // 2)):
                        if 0 <= at < n:
                            h[at] = t
                sc.res("r", hist=h)
                c = hist_cfg(rng, kind, n, i)
                if kind == "seqrep":
                    c["f"], c["s"], c["ml"], c["tol"] = b(0.5), b(0.25), 2, 0
                us(c, "ln", ln)
                sc.op(op="try", l="a", r="r", cfg=c, m=MODES[(i + ln) % 7])
                out.append(sc)
        return out
    return gen


def follow_ladder(rng, deep):
    """C18: the end of the history seen many times, each with its own follower"""
    out = []
    for i, n in enumerate([5, 10, 20, 31, 33, 40, 63, 65, 70, 100, 127, 129, 140, 200, 255, 257, 300] + ([400, 520, 700] if deep else [])):
        sc = Sc()
        ids = ids_for(rng, n, "shuf")
        sc.raw("a", ids, logits(rng, n, "norm"))
        order = list(ids)
        rng.shuffle(order)
        m = rng.choice([2, 2, 3, 4])
        motif = [90000 + q for q in range(m)]
        h = []
        for q, t in enumerate(order):
            # some longer, some shorter matches
            h += motif[rng.choice([0, 0, 0, 1]) if m > 2 else 0:] + [t]
        h += motif
        sc.res("r", hist=h)
        for q in range(2):
            c = hist_cfg(rng, "seqrep", n, q)
            c["ml"], c["tol"] = rng.choice([2, m]), (0 if q or n > 70 else 1)
            us(c, "ln", [10 * n, len(h), len(h) - 1][i % 3])
            sc.op(op="try", l="a", r="r", cfg=c, m=MODES[(i + q) % 7])
        out.append(sc)
    return out


def long_matches(rng, deep):
    """C18: minimum lengths of all sizes, met exactly, by more, and missed by one"""
    out = []
    for i, ml in enumerate([2, 3, 5, 8, 13, 16, 17, 20, 31, 32, 33, 34, 40, 50, 63, 64, 65, 66, 80, 100, 127, 128, 129, 150, 200,
                            255, 256, 257] + ([300, 400, 511, 512, 513] if deep else [])):
        sc = Sc()
        ids = ids_for(rng, 6, "shuf")
        sc.raw("a", ids, logits(rng, 6, "norm"))
        for j, d in enumerate((0, 1, -1)):
            # d more than the minimum length
            blk = [rng.choice([90001, 90002, 90003, ids[5]]) for _ in range(ml + max(d, 0))]
            first = list(blk)
            if d < 0:
                first[0] = 90009
            h = [ids[4]] * rng.choice([0, 1, 3]) + first + [ids[i % 4]] + blk
            sc.res("r", hist=h)
            c = hist_cfg(rng, "seqrep", 14, j)
            c["f"], c["s"] = b([0.5, 0.25, 0.0][(i + j) % 3]), b([0.0, 0.5, 0.25][(i + j) % 3])
            c["ml"], c["tol"], c["mm"] = ml, 1 if ml <= 40 and i % 3 == 2 else 0, 1
            us(c, "ln", [len(h), len(h) + 5, 1000][(i + j) % 3])
            sc.op(op="try", l="a", r="r", cfg=c, m=MODES[(i + j) % 7])
        out.append(sc)
    # very many matches of one part of the history, and one of another
    for i, (run, end) in enumerate([(40, 12), (80, 20), (150, 30), (60, 60), (200, 12)]):
        for late in (True, False):
            sc = Sc()
            ids = ids_for(rng, 6, "shuf")
            sc.raw("a", ids, logits(rng, 6, "norm"))
            x = rng.choice([ids[0], 90001])
            many, once = [x] * run + [ids[1]], [90002] + [x] * end + [ids[2]]
            h = (many + once if late else once + many) + [90003] + [x] * end
            sc.res("r", hist=h)
            for q in range(2):
                c = {"k": "seqrep", "f": b([0.5, 0.25][q]), "s": b([0.25, 0.0][q]), "ml": [2, end][q], "tol": 0, "mm": 1}
                us(c, "ln", 1000)
                sc.op(op="try", l="a", r="r", cfg=c, m=MODES[(i + q) % 7])
            out.append(sc)
    return out


def zipf_ladder(rng, deep):
    """C11: many most likely tokens taken into the estimate, or few"""
    out = []
    for i, cut in enumerate([3, 10, 50, 99, 100, 101, 128, 200, 256, 500, 512, 999, 1000, 1001] + ([1024, 1500, 2000, 3000] if deep else [])):
        n = cut + max(5, cut // 4)
        # flat at first, then down a step, and another one
        drop = rng.choice([20.0, 30.0, 38.0])
        v = [f32(rng.choice([-0.05, -0.1]) * math.log(q + 1) - (drop if q >= cut else 0) - (drop if q >= n - 2 else 0)) for q in range(n)]
        v.sort(reverse=True)
        ids = ids_for(rng, n, "shuf")
        order = list(range(n))
        if i % 2:
            rng.shuffle(order)
        for m in (cut, cut + 1, cut + 2, n - 2, n, n + 10):
            sc = Sc()
            sc.raw("a", ids, [v[q] for q in order], i % 2 == 0, False)
            sc.res("r", seed=rng.randrange(1 << 30))
            t = [math.log((q + 2) / (q + 1)) for q in range(min(m - 1, n - 1))]
            s = sum(x * (v[q] - v[q + 1]) for q, x in enumerate(t)) / sum(x * x for x in t)
            # a mu that puts the cut in the middle of the list
            nv, e, k = 32000, s - 1, n / 3
            try:
                mu = math.log2(k ** s * (1 - nv ** -e) / e)
            except (ValueError, OverflowError, ZeroDivisionError):
                mu = 5.0
            c = {"k": "miro1", "tau": b(3.0), "eta": b(0.1), "how": "with", "hmu": True, "mu": b(f32(min(90.0, max(-90.0, mu))))}
            us(c, "m", m)
            us(c, "nv", nv)
            sc.op(op="try", l="a", r="r", cfg=c, m=MODES[i % 7])
            out.append(sc)
    # cuts far down in long lists
    for i, n in enumerate((600, 3000, 6000, 20000, 70000)):
        sc = Sc()
        s = rng.choice([1.2, 1.4])
        v = [f32(-s * math.log(q + 1)) for q in range(n)]
        sc.raw("a", ids_for(rng, n, "shuf"), v, True, False)
        sc.res("r", seed=rng.randrange(1 << 30))
        for k in (n * 0.4, n * 0.9) if n < 70000 else (n * 0.96,):
            mu = math.log2(k ** s * (1 - 100000.0 ** (1 - s)) / (s - 1))
            c = {"k": "miro1", "tau": b(3.0), "eta": b(0.1), "how": "with", "hmu": True, "mu": b(f32(mu))}
            us(c, "m", 100)
            us(c, "nv", 100000)
            sc.op(op="try", l="a", r="r", cfg=c, m=MODES[i % 7])
        out.append(sc)
    return out


def miro_steps(kind):
    """C10, C11: one sampler over many steps"""
    def gen(rng, deep):
        out = lists_ladder([kind], tries=3)(rng, deep)
        for i in range(30 if deep else 10):
            sc = Sc()
            n = rng.choice([4, 8, 30]) if i else 3
            sc.res("r", seed=rng.randrange(1 << 30))
            sc.mk("s", miro_cfg(rng, kind, n, sane=True))
            for _ in range((120 if deep else 45) if i else (3000 if deep else 300)):
                sc.raw("a", list(range(n)), logits(rng, n, rng.choice(["norm", "ints", "dup"])))
                sc.run("s", "a", "r", rng.choice(MODES))
            out.append(sc)
        return out
    return gen


def picks(rng, deep):
    """C12, C13, C21: one picker over many runs"""
    out = []
    for kind in ("greedy", "rand", "miro1", "miro2"):
        for i in range(6 if deep else 2):
            sc = Sc()
            sc.res("r", seed=rng.randrange(1 << 30), hist=[])
            sc.mk("s", any_cfg(rng, kind, [1, 2, 3], [0.0] * 3, [], sane=True))
            for j in range(150 if deep else 60):
                n = rng.choice([0, 1, 2, 3, 5])
                sc.raw("a", list(range(100 * j, 100 * j + n)), logits(rng, n, rng.choice(["norm", "ints"])))
                sc.run("s", "a", "r" if rng.random() < 0.95 else None, rng.choice(MODES))
            out.append(sc)
    return out


def chain_ladder(rng, deep):
    """C20, C21: many members, deep nesting, many runs"""
    out = []
    for i, n in enumerate([5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 130] + ([257, 300] if deep else [])):
        for j in range(3):
            cmp, same = [], []
            sc = Sc(cmp=cmp, same=same)
            ids = list(range(10, 22))
            v = logits(rng, 12, "norm")
            hist = history(rng, ids, n=12)
            rd = dict(seed=rng.randrange(1 << 30), hist=hist)
            sc.res("ra", **rd)
            sc.res("rb", **rd)
            cfgs = []
            for _ in range(n):
                k = rng.choice(["temp", "flat", "rep", "freq", "greedy", "rand", "topk", "topp", "miro2", "seqrep"])
                c = any_cfg(rng, k, ids, v, hist, sane=True)
                if k in ("topk", "topp"):
                    c["mk"] = 4
                    c.pop("mkx", None)
                if k == "temp":
                    c["t"] = b(rng.choice([1.0, 2.0, 0.5, 0.0]))
                cfgs.append(c)
            if j == 2:
                # no two neighbours can change places
                cfgs = [{"k": "temp", "t": b([2.0, 0.5][q // 2 % 2])} if q % 2 else
                        {"k": "flat", "b": [[t32(x), b(rng.uniform(-2, 2))] for x in ids]} for q in range(n - 1)] + [{"k": "greedy"}]
            if j == 1 and n > 8:
                cfgs[rng.randrange(n // 2, n)] = {"k": "spy", "id": "x", "quiet": True, "acts": rng.choice([["fail", "first"], ["first", "fail"]])}
            for q, c in enumerate(cfgs):
                sc.mk(f"b{q}", c)
            mem = [dict(c) for c in cfgs]
            if i % 2:
                # nested n deep: each chain holds a sampler and the next chain
                for q in range(min(n, 40)):
                    tail = mem[-2:]
                    mem = mem[:-2] + [{"k": "chain", "mem": tail, "how": ["push", "add"][q % 2]}]
                    if len(mem) == 1:
                        break
            sc.mk("c", {"k": "chain", "mem": mem, "how": ["push", "add", "addassign"][(i + j) % 3]})
            for q in range(3):
                sc.raw("a", ids, logits(rng, 12, "norm"))
                sc.op(op="cp", l="b", **{"from": "a"})
                i1 = sc.run("c", "a", "ra", MODES[(i + q) % 3])
                cmp.append([i1, sc.op(op="seq", ss=[f"b{q}" for q in range(n)], l="b", r="rb")])
            same.append([sc.op(op="peek", r="ra"), sc.op(op="peek", r="rb")])
            out.append(sc)
    return out


def hook_ladder(rng, deep):
    """C29: many members, deep nesting"""
    out = []
    for n in [6, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 129]:
        for deepw in (False, True):
            sc = Sc()
            sc.res("r", hist=[1])
            mem = [{"k": "spy", "id": f"h{i}", "quiet": True, "acts": ["first"], "wrap": rng.choice(["", "box", "arc", "built"])}
                   for i in range(n)]
            if deepw:
                for _ in range(min(n - 1, 40)):
                    mem = mem[:-2] + [{"k": "chain", "mem": mem[-2:], "wrap": rng.choice(["", "box", "arc"])}]
            sc.mk("c", {"k": "chain", "mem": mem})
            sc.op(op="hook", s="c", r="r")
            out.append(sc)
    return out


def new_ladder(rng, deep):
    """C27: long lists, more values than 16 bits count"""
    out = []
    for i, n in enumerate(SIZES + LONG[: None if deep else 3] + [65535, 65536, 65537, 131073] + ([70000, 262145] if deep else [])):
        sc = Sc()
        v = logits(rng, n, "norm" if i % 2 else "dup")
        for _ in range(3):
            v[rng.randrange(n)] = rng.choice([math.inf, -math.inf])
        w = list(v)
        w[rng.choice([n - 1, rng.randrange(n)])] = math.nan
        via = VIAS
        for j, x in enumerate([v, w] if n < 60000 or i % 2 else [v]):
            sc.new("l", x, via[(i + j) % 6])
        for j, k in enumerate([1, n // 2, n - 1, 40, n // 8][: 5 if n < 600 else 2]):
            if n > 5000:
                k = [100, 50][j]
            sc.op(op="newk", l="l", v=[b(x) for x in (w if j % 2 else v)], n=k, via=via[(i + j) % 6])
        out.append(sc)
    return out


def set_ladder(rng, deep):
    """C24: many settings one after the other"""
    out = []
    for k in OPTS:
        if not OPTS[k] or k == "spy":
            continue
        sc = Sc()
        sc.mk("s", any_cfg(rng, k, [0, 1, 2], [0.0] * 3, [], sane=True))
        for _ in range(60):
            key, ty = rng.choice(OPTS[k])
            if key == "mu":
                pass
            val = {"t": "u", "d": str(rng.randint(0, 1 << 31))} if ty == "u" else {"t": "f", "v": pair(fval(rng) + 0.0)}
            sc.op(op="set", s="s", key=key, val=val)
            if rng.random() < 0.4:
                sc.op(op="get", s="s", key=rng.choice(OPTS[k])[0])
        out.append(sc)
    return out


def hooks_ladder(rng, deep):
    """C32: long strings and many settings in a row, on samplers with hooks"""
    out = []
    for h in HOOKS:
        for n in (9, 17, 33, 65) + ((130,) if deep else ()):
            sc = Sc()
            c = {"k": "hspy", "hooks": h, "id": "h", "quiet": True, "acts": ["none"], "table": "full"}
            sc.mk("s", dict(c, wrap="built") if n % 3 else c)
            # options whose hooks neither refuse nor fail, until the last part
            ok = {"hveto": ["al", "alphabet", "name"], "hpost": ["alpha", "alphabet"],
                  "hswap": ["al", "alpha", "beta", "name"]}.get(h, ["al", "alpha", "alphabet", "beta", "name"])
            part = {"al": "al={}", "alpha": "alpha={}.5", "alphabet": "alphab={}", "beta": "b=t", "name": "n=v{}"}
            parts = [part[rng.choice(ok)].format(rng.randint(0, 9)) for _ in range(n)]
            sc.op(op="cfg", s="s", str=":".join(parts))
            sc.op(op="cfg", s="s", str=":".join(parts + [rng.choice(["beta=f", "al=2", "zz=1", "l=1"])] + parts[:2]))
            for _ in range(n):
                key, ty = rng.choice(OPTS["spy"])
                sc.op(op="set", s="s", key=key, val=optval(rng, ty))
            out.append(sc)
    return out


def conf_ladder(rng, deep):
    """C25: long strings, long numbers, many blanks"""
    out = []
    for k in OPTS:
        if k == "spy" or not OPTS[k]:
            continue
        for n in (5, 8, 16, 17, 33, 64, 65, 100, 257):
            sc = Sc()
            sc.mk("s", any_cfg(rng, k, [0, 1, 2], [0.0] * 3, [], sane=True))
            parts = []
            for _ in range(n):
                key, ty = rng.choice(OPTS[k])
                parts.append(f"{key}={rng.randint(0, 99)}" if ty == "u" else f"{key}={rng.randint(-9, 9)}.{rng.randint(0, 99)}")
            if n % 2:
                parts[rng.randrange(n // 2, n)] = rng.choice(["zz=1", "", " ", "x"])
            sc.op(op="cfg", s="s", str=":".join(parts))
            out.append(sc)
    sc = Sc()
    for n in (1, 5, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 25, 31, 32, 33, 40, 64, 100, 300):
        for ty in "uf":
            for s in ("0" * n + "7", "7" * n, "1" + "0" * (n - 1), " " * n + "3" + "\t" * n, "0." + "0" * n + "25",
                      "1." + "3" * n, f"1e{n}", f"1e-{n}", "-" + "9" * n, "+" + "1" * n):
                if len(s) <= 19 or ty == "f" or s.strip("0")[:1] != "" :
                    sc.op(op="parse", ty=ty, str=s)
    out.append(sc)
    return out


def err_ladder(rng, deep):
    """C34: bad parts far into a string, long names, deep chains, late failures"""
    out = []
    for n in (1, 2, 9, 17, 33, 65, 129) + ((300,) if deep else ()):
        for k in ("spy", "miro1", "seqrep", "topk"):
            good = {"spy": ["al=3", "alpha=.5", "b=t", "name=q"], "miro1": ["tau=3", "eta=.5", "mu=2"],
                    "seqrep": ["tol=1", "flat=2", "max_m=3"], "topk": ["k=4", "min=2"]}[k]
            bad = {"spy": ["l=1", "alp=2", "a=1", "zz=3", "al=-1", "beta=maybe"], "miro1": ["m=2", "etc=1", "n_v=x", "tau=1e"],
                   "seqrep": ["m=1", "mi", "last_nn=2", "f=z"], "topk": ["kk=1", "k=", "=3"]}[k]
            sc = Sc()
            c = ({"k": "spy", "id": "s", "quiet": True, "acts": ["none"], "table": "full"} if k == "spy"
                 else any_cfg(rng, k, [0, 1, 2], [0.0] * 3, [], sane=True))
            sc.mk("s", c)
            sc.op(op="b_new", b="b")
            sc.op(op="b_push", b="b", name="n" * n, ty="single", fac=c, init=[], how="push")
            sc.op(op="b_push", b="b", name="n" * n + "x", ty="static", fac=c, init=[], how="push")
            for x in bad:
                s = ":".join([rng.choice(good) for _ in range(n - 1)] + [x] + [rng.choice(bad) for _ in range(n % 3)])
                sc.op(op="cfg", s="s", str=s)
                sc.op(op="b_cfg", b="b", name="n" * n, str=s)
            sc.op(op="b_cfg", b="b", name="n" * n + "x", str="")
            sc.op(op="b_cfg", b="b", name="n" * n + "y", str=bad[0])
            sc.op(op="set", s="s", key="q" * n, val={"t": "u", "d": "1"})
            sc.op(op="get", s="s", key="q" * n)
            out.append(sc)
    # the failing sampler deep down, or late
    for d in (1, 2, 5, 9, 17, 30):
        for bad in RAISES:
            sc = Sc(spies=True)
            sc.res("r", seed=1, hist=[0, 1])
            m = {"k": "spy", "id": "deep", "acts": [bad], "table": "full"}
            for j in range(d):
                m = {"k": "chain", "mem": [{"k": "temp", "t": b(0.5)}, m], "how": "push", "wrap": ["", "box", "arc"][j % 3]}
            sc.mk("s", m)
            sc.mk("t", {"k": "chain", "mem": [{"k": "spy", "id": f"w{j}", "acts": ["none"], "table": "one"} for j in range(d)]
                        + [{"k": "spy", "id": "late", "acts": ["none"] * d + [bad, "first"], "table": "one"}], "how": "push"})
            sc.new("l", logits(rng, 5, "norm"))
            sc.run("s", "l", "r", "ts"[d % 2])
            for _ in range(d + 2):
                sc.run("t", "l", "r", "ts"[d % 2])
            out.append(sc)
    return out


def builder_ladder(rng, deep):
    """C26: many slots, many samplers in one slot"""
    out = []
    for n in (6, 8, 9, 16, 17, 32, 33, 40):
        sc = Sc()
        sc.op(op="b_new", b="b")
        for i in range(n):
            fac = rng.choice([{"k": "spy", "id": f"y{i}", "acts": ["none"], "table": "full"}, {"k": "temp", "t": b(2.0)},
                              {"k": "topk", "n": 4, "mk": 1}])
            sc.op(op="b_push", b="b", name=f"slot{i}", ty=["static", "single", "chain", "chain"][i % 4], fac=fac, init=[],
                  how=["push", "add", "addassign"][i % 3])
        for _ in range(2 * n):
            i = rng.randrange(n)
            if rng.random() < 0.2:
                sc.op(op="b_ensure", b="b", i=i)
            else:
                sc.op(op="b_cfg", b="b", name=f"slot{i}", str=rng.choice(["k=3", "temperature=0.5", "al=7", "2", ""]))
        sc.op(op="b_chain", b="b", s="c")
        sc.new("l", logits(rng, 6, "norm"))
        sc.res("r", seed=3, hist=[])
        sc.run("c", "l", "r")
        out.append(sc)
    for n in (10, 17, 33, 65, 129):
        sc = Sc()
        sc.op(op="b_new", b="b")
        sc.op(op="b_push", b="b", name="m", ty="chain", fac={"k": "spy", "id": "y", "acts": ["none"], "table": "full"}, init=[], how="push")
        for i in range(n):
            sc.op(op="b_cfg", b="b", name="m", str=f"al={i}")
            if i in (0, n - 1):
                sc.op(op="b_ensure", b="b", i=0)
        sc.op(op="b_chain", b="b", s="c")
        sc.new("l", [1.0, 2.0])
        sc.res("r", seed=3, hist=[])
        sc.run("c", "l", "r")
        out.append(sc)
    return out


def pair_ladder(rng, deep):
    """C30: long programs and long lists, twice"""
    out = []
    kinds = ["topk", "topp", "minp", "topa", "loctyp", "tailfree", "temp", "flat", "rep", "freq", "seqrep", "greedy",
             "rand", "miro1", "miro2"]
    for i, kind in enumerate(kinds):
        for n, steps in ((40, 30), (130, 6), (600, 2)):
            same = []
            sc = Sc(same=same)
            ids = ids_for(rng, n, "shuf")
            hist = history(rng, ids, n=30)
            c = any_cfg(rng, kind, ids, logits(rng, n, "norm"), hist, sane=True)
            seed = rng.randrange(1 << 30)
            for q in "AB":
                sc.mk("s" + q, c)
                sc.res("r" + q, seed=seed, hist=hist)
            evs = {"A": [], "B": []}
            ls = [logits(rng, n, rng.choice(["norm", "dup"])) for _ in range(steps)]

            def prog(q):
                for v in ls:
                    sc.raw("l" + q, ids, v)
                    evs[q].append(sc.run("s" + q, "l" + q, "r" + q))

            prog("A")
            if i % 2:
                sc.thr(lambda: prog("B"))
            else:
                prog("B")
            same += [list(x) for x in zip(evs["A"], evs["B"])]
            out.append(sc)
    return out


def ban_ladder(rng, deep):
    """C14: long lists, many bans, many steps on the same list"""
    out = []
    for i, n in enumerate([s for s in SIZES if s >= 8] + (LONG[:4] if deep else [])):
        sc = Sc(c14=True)
        ids, v = biglist(sc, rng, "a", n, [0, 1, 2, 4, 5][i % 5])
        hist = history(rng, ids, n=20)
        sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
        order = sorted(range(n), key=lambda q: -v[q])
        bans = [ids[q] for q in order[: rng.choice([1, 3, n // 2, n - 1])]]
        sc.mk("ban", {"k": "flat", "b": [[t32(t), NINF] for t in bans]})
        sc.run("ban", "a", "r")
        for j in range(4 if n < 600 else 2):
            mem = []
            for _ in range(rng.choice([0, 1, 2])):
                k = rng.choice(["topk", "topp", "minp", "topa", "loctyp", "tailfree", "rep", "freq", "temp"])
                c = any_cfg(rng, k, ids, v, hist, sane=True)
                for f in ("p", "z", "a1", "a2"):
                    if f in c and not math.isfinite(unb(c[f])):
                        c[f] = b(0.5)
                mem.append(c)
            mem.append(any_cfg(rng, ["greedy", "rand", "miro1", "miro2"][(i + j) % 4], ids, v, hist, sane=True))
            sc.mk(f"s{j}", {"k": "chain", "mem": mem})
            sc.run(f"s{j}", "a", "r")
        out.append(sc)
    return out


def share_ladder(rng, deep):
    """C22: more threads, more runs"""
    out = []
    for nt, runs in ((2, 200), (16, 20), (5, 60)) + (((32, 40), (3, 600)) if deep else ()):
        for rs in (["chain"], ["direct"], ["topk", "nested", "direct", "twice"]):
            sc = Sc()
            sc.op(op="share", cfg={"k": "probe"}, routes=[rs[i % len(rs)] for i in range(nt)], runs=runs, panic_at=-1,
                  fail_every=0, spin=rng.choice([0, 200]))
            out.append(sc)
    return out


def many(kinds, sizes=(5, 40, 130), runs=0):
    """the same run thousands of times: nothing may depend on how many there were"""
    def gen(rng, deep):
        out = []
        for i, kind in enumerate(kinds):
            for j, n in enumerate(sizes):
                if kind in ("miro1", "miro2") and n > 100 and not deep:
                    continue
                for keep in ([False, True] if kind not in ("miro1", "miro2") else [False]):
                    sc = Sc()
                    ids, v = biglist(sc, rng, "a", n, [0, 4, 2][(i + j) % 3])
                    hist = history(rng, ids, n=10)
                    ex = explicit(rng, kind, n, v) if n > 8 else []
                    c = rng.choice(ex) if ex else any_cfg(rng, kind, ids, v, hist, sane=True)
                    if kind in ("rep", "freq"):
                        # the window's length tells
                        hist = [ids[q % 4] for q in range(10)] + [ids[4]] + [77777] * 3
                        c = hist_cfg(rng, kind, 14, 1)
                        us(c, "ln", 4)
                    elif kind == "seqrep":
                        x, y = 90002, 90003
                        hist = [x, y, ids[0], 7, x, y, ids[1], 8, y, y, ids[2], 9, x, y]
                        c = hist_cfg(rng, kind, 14, 1)
                        c["ml"], c["tol"] = 2, [0, 1][j % 2]
                        us(c, "ln", len(hist))
                    # before: once another list with these tokens and others, after another history
                    sc.op(op="cp", l="z", **{"from": "a"})
                    if kind not in ("miro1", "miro2"):
                        sc.raw("z", ids[::-1] + [1 << 20], logits(rng, n + 1, "norm"))
                    sc.op(op="many", l="a", l2="z", hist2=[t32(x) for x in list(ids) * 2 + [77777]], cfg=dict(c, how="new" if j % 2 else "with"), n=runs or (300000 // n if deep else 20000 // n + 2000),
                          keep=keep, m=MODES[(i + j) % 7], rng={"seed": rng.randrange(1 << 30)}, hr=True, hh=True,
                          hist=[t32(x) for x in hist], kind="simple")
                    out.append(sc)
        return out
    return gen


def frame_ladder(rng, deep):
    """C35: long lists, long histories and many runs between two looks"""
    out = []
    for i, kind in enumerate(ALL):
        for n, h, steps in ((4, 3, 120), (30, 300, 12), (150, 20, 3), (150, 40, 3), (151, 3, 3), (152, 200, 3), (700, 20, 1), (30, 2000, 2),
                            (31, 700, 2), (9, 9, 9)) + (((40000, 70, 1), (40000, 7, 1)) if deep else ()):
            sc = Sc()
            ids = ids_for(rng, n, "shuf")
            vals = logits(rng, n, "norm")
            hist = history(rng, ids, n=h)
            c = any_cfg(rng, kind, ids, vals, hist, sane=True)
            # settings beyond what there is, below it, at it or beside it
            far = (i + len(out)) % 4
            for key in ("ln", "n", "nv", "m", "mk", "ml", "mm", "tol"):
                if key in c:
                    c.pop(key + "x", None)
                    top = max(h, n)
                    v = {0: 10 * top + 1, 1: rng.choice([1, 2, 3]), 2: rng.choice([h, n, h + 1, n + 1, n - 1]), 3: c[key]}[far]
                    us(c, key, min(v, 4) if key in ("mm", "tol", "ml") else max(v, 1))
            if kind == "seqrep" and far == 1:
                us(c, "mm", 0)
                us(c, "tol", 0)
                us(c, "ml", rng.choice([2, 3]))
                us(c, "ln", max(h, 20))
            sc.mk("s", c)
            sc.mk("o", c)
            sc.mk("g", {"k": "greedy"})
            sc.mk("c", {"k": "chain", "mem": [{"ref": "s"}, {"ref": "g"}]})
            sc.raw("l", ids, vals)
            sc.raw("x", ids, vals)
            sc.res("r", seed=rng.randrange(1 << 30), hist=hist)
            sc.res("q", seed=rng.randrange(1 << 30), hist=hist[:50])
            sc.op(op="look")
            for j in range(steps):
                sc.run("c" if j % 3 == 2 else "s", "l", "r", "tts"[j % 3])
                if j % 10 == 9:
                    sc.op(op="look")
                    sc.raw("l", ids, vals)
                elif j % 4 == 3:
                    sc.raw("l", ids, vals)
            sc.op(op="look")
            out.append(sc)
    return out


FILT = ["topk", "topp", "minp", "topa", "loctyp", "tailfree"]
ALL = FILT + ["temp", "flat", "rep", "freq", "seqrep", "greedy", "rand", "miro1", "miro2"]


def plus(*fs):
    return lambda rng, deep: [s for f in fs for s in f(rng, deep)]


LADDER = {
    "C01": plus(lists_ladder(ALL, 5, 4), vocab(ALL, (20000,)), many(ALL, (40,))), "C02": plus(lists_ladder(ALL, 5, 6), vocab(ALL, (20000,)), many(ALL, (40,))),
    "C03": ops_ladder, "C04": plus(lists_ladder(FILT, 6, 6), vocab(FILT, (5000, 70000), 2), many(FILT, (40,))),
    "C05": plus(lists_ladder(["topk"], 5, 6), vocab(["topk"]), many(["topk"]), many(["topk"], (5,), 70000)), "C06": plus(lists_ladder(["topp"], 5, 6), vocab(["topp"]), many(["topp"])),
    "C07": plus(lists_ladder(["minp", "topa"], 6, 6), vocab(["minp", "topa"], per=1), many(["minp", "topa"])),
    "C08": plus(typical_tail, lists_ladder(["loctyp"], 5, 6), vocab(["loctyp"]), many(["loctyp"])), "C09": plus(lists_ladder(["tailfree"], 5, 6), vocab(["tailfree"]), many(["tailfree"])),
    "C10": plus(miro_steps("miro2"), vocab(["miro2"]), many(["miro2"])), "C11": plus(miro_steps("miro1"), vocab(["miro1"]), zipf_ladder, many(["miro1"])),
    "C12": plus(lists_ladder(["greedy"], 1, 6), vocab(["greedy"]), picks, many(["greedy"])),
    "C13": plus(lists_ladder(["rand"], 1, 4), vocab(["rand"], (5000, 20000)), picks, many(["rand"])), "C14": ban_ladder, "C15": plus(flat_ladder, many(["flat"]), many(["flat"], (5,), 70000)),
    "C16": plus(hist_ladder("rep"), edge_ladder("rep"), lists_ladder(["rep"], 2), vocab(["rep"]), many(["rep"]), many(["rep"], (5,), 70000)),
    "C17": plus(hist_ladder("freq"), edge_ladder("freq"), lists_ladder(["freq"], 2), vocab(["freq"]), many(["freq"]), many(["freq"], (5,), 70000)),
    "C18": plus(hist_ladder("seqrep"), edge_ladder("seqrep"), follow_ladder, long_matches, lists_ladder(["seqrep"], 2), vocab(["seqrep"]), many(["seqrep"]), many(["seqrep"], (5,), 70000)),
    "C19": plus(lists_ladder(["temp"], 3), vocab(["temp"]), many(["temp"]), many(["temp"], (5,), 70000)),
    "C20": chain_ladder, "C21": plus(picks, chain_ladder), "C22": share_ladder,
    "C23": plus(lists_ladder(["rep", "freq", "seqrep", "rand", "miro1", "miro2"], 4),
                hist_ladder("rep"), hist_ladder("freq"), hist_ladder("seqrep"), many(["rep", "freq", "seqrep", "rand", "miro1", "miro2"], (40,))), "C24": set_ladder, "C25": conf_ladder, "C32": hooks_ladder, "C34": err_ladder, "C35": frame_ladder,
    "C26": builder_ladder, "C27": new_ladder, "C28": plus(lists_ladder(ALL, 6), vocab(ALL, (20000,)), many(ALL, (40,))), "C29": hook_ladder, "C30": plus(pair_ladder, many(ALL)),
}


def generate(prop, seed, deep):
    import random
    if prop not in LADDER:
        return []
    return [s.out(f"l{i}") for i, s in enumerate(LADDER[prop](random.Random(f"ladder:{prop}:{seed}"), deep))]
