"""Encoding helpers shared by the scenario generators."""
import math
import random
import struct

F32MAX, F32MIN = 3.4028234663852886e38, 1.401298464324817e-45

NAN = 0x7FC00000
NINF = -8388608
PINF = 0x7F800000


def f32(x):
    """x rounded to single precision"""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def b(x):
    """bit pattern of the f32 nearest to x, as a signed 32-bit integer"""
    x = float(x)
    if math.isnan(x):
        return NAN
    return struct.unpack("<i", struct.pack("<f", f32(x)))[0]


def unb(i):
    return struct.unpack("<f", struct.pack("<i", i))[0]


def t32(t):
    """token id as a signed 32-bit integer"""
    t &= 0xFFFFFFFF
    return t - (1 << 32) if t >= 1 << 31 else t


def pair(x):
    """f64 as two signed 32-bit halves"""
    hi, lo = struct.unpack("<ii", struct.pack("<Q", struct.unpack("<Q", struct.pack("<d", x))[0])[4:]
                           + struct.pack("<d", x)[:4])
    return [hi, lo]


def softmax(ls):
    m = max(ls) if ls else 0.0
    if not math.isfinite(m):
        return [0.0] * len(ls)
    w = [math.exp(max(-800.0, l - m)) if l != -math.inf else 0.0 for l in ls]
    s = sum(w)
    return [x / s for x in w]


# stand-ins in the specification, whose integers have 32 bits: larger than any
# length, and in the same order
STANDIN = {"4294967296": 2147483640, "9223372036854775807": 2147483641,
           "9223372036854775808": 2147483642, "18446744073709551615": 2147483647}
HUGE = ["18446744073709551615", "9223372036854775808", "4294967296", "9223372036854775807"]


def us(d, key, v, rng=None):
    """usize field: small integer, or a huge one as a decimal string"""
    if isinstance(v, str):
        d[key] = STANDIN.get(v, 2147483647)
        d[key + "x"] = v
    else:
        d[key] = v
    return d


VIAS = ["iter", "vec", "fn", "wide", "filter", "chain"]


class Sc:
    """one scenario"""

    def __init__(self, **tag):
        self.ops = []
        self.tag = dict(tag)
        self.n = 0

    def op(self, **o):
        self.ops.append(o)
        self.n += 1
        return self.n

    def thr(self, ops_fn):
        """ops produced by ops_fn run on another thread"""
        saved, self.ops = self.ops, []
        ops_fn()
        inner, self.ops = self.ops, saved
        self.ops.append({"op": "thr", "ops": inner})

    def new(self, l, vals, via="iter"):
        return self.op(op="new", l=l, v=[b(x) for x in vals], via=via)

    def raw(self, l, ids, vals, so=False, sm=False, probs=None):
        if probs is None:
            probs = softmax(vals) if sm else [0.0] * len(vals)
        e = [[t32(i), b(v), b(p)] for i, v, p in zip(ids, vals, probs)]
        return self.op(op="raw", l=l, e=e, fso=so, fsm=sm)

    def res(self, r, seed=None, words=None, hist=None, kind="simple"):
        rng = {"words": words} if words is not None else {"seed": seed} if seed is not None else "none"
        return self.op(op="res", r=r, rng=rng, hr=rng != "none", hh=hist is not None,
                       hist=[t32(x) for x in (hist or [])], kind=kind)

    def mk(self, s, cfg):
        return self.op(op="mk", s=s, cfg=cfg)

    def run(self, s, l, r=None, m="t"):
        o = dict(op="run", s=s, l=l, m=m)
        if r is not None:
            o["r"] = r
        return self.op(**o)

    def out(self, i):
        return {"id": i, "tag": self.tag, "ops": self.ops}


KINDS = ["topk", "topp", "minp", "topa", "loctyp", "tailfree", "temp", "flat", "rep", "freq",
         "seqrep", "greedy", "rand", "miro1", "miro2"]
FILTERS = ["topk", "topp", "minp", "topa", "loctyp", "tailfree"]
ADJUST = ["temp", "flat", "rep", "freq", "seqrep"]
PICKERS = ["greedy", "rand", "miro1", "miro2"]


def ids_for(rng, n, style=None):
    style = style or rng.choice(["pos", "pos", "shuf", "big", "mid", "edge"])
    if style == "pos":
        return list(range(n))
    if style == "shuf":
        x = list(range(n))
        rng.shuffle(x)
        return x
    if style == "big":
        return rng.sample(range(1 << 31, 1 << 32), n)
    if style == "mid":
        return rng.sample(range(60000, 60000 + max(140000, 2 * n)), n)
    base = rng.choice([(1 << 16) - n // 2, (1 << 24) - n // 2, (1 << 31) - n // 2, (1 << 32) - n])
    x = list(range(base, base + n))
    rng.shuffle(x)
    return x


def size(rng, cap=24, big=0.04, bigcap=300):
    r = rng.random()
    if r < 0.04:
        return 0
    if r < 0.10:
        return 1
    if r < 0.17:
        return 2
    if r < 0.25:
        return 3
    if r < 1 - big:
        return rng.randint(2, cap)
    return rng.randint(cap, bigcap)


def logits(rng, n, style=None):
    style = style or rng.choice(["norm"] * 5 + ["wide", "ints", "ints", "ninf", "equal", "hot",
                                                "geo", "dup", "zeros", "lin", "huge", "tiny"])
    if style == "norm":
        v = [rng.gauss(0, rng.choice([0.3, 1, 2, 4])) for _ in range(n)]
    elif style == "wide":
        v = [rng.uniform(-60, 60) for _ in range(n)]
    elif style == "ints":
        v = [float(rng.randint(-2, 2)) for _ in range(n)]
    elif style == "ninf":
        v = [rng.gauss(0, 2) for _ in range(n)]
        for i in range(1, n):
            if rng.random() < 0.4:
                v[i] = -math.inf
        rng.shuffle(v)
    elif style == "equal":
        v = [rng.gauss(0, 3)] * n
    elif style == "hot":
        v = [rng.gauss(0, 1) for _ in range(n)]
        if n:
            v[rng.randrange(n)] = rng.choice([8.0, 20.0, 200.0])
    elif style == "geo":
        v = [-math.log(2) * i for i in range(n)]
        rng.shuffle(v)
    elif style == "dup":
        pool = [rng.gauss(0, 2) for _ in range(max(1, n // 3))]
        v = [rng.choice(pool) for _ in range(n)]
    elif style == "zeros":
        v = [rng.choice([0.0, -0.0, 1.0]) for _ in range(n)]
    elif style == "lin":
        a = rng.uniform(0.01, 1)
        v = [-a * i for i in range(n)]
        rng.shuffle(v)
    elif style == "huge":
        v = [rng.choice([-1, 1]) * 10.0 ** rng.uniform(0, 37) for _ in range(n)]
    else:
        v = [rng.gauss(0, 1) * 10.0 ** rng.uniform(-40, -3) for _ in range(n)]
    return [f32(x) for x in v]


DY = [
    [1], [1, 1], [2, 1, 1], [1, 1, 1, 1], [4, 2, 1, 1], [4, 4, 2, 2, 2, 2], [8, 4, 2, 1, 1],
    [2, 2, 2, 1, 1], [1] * 8, [16, 8, 4, 2, 1, 1], [8, 8, 4, 4, 4, 2, 1, 1],
    [32, 16, 8, 4, 2, 1, 1], [4, 1, 1, 1, 1], [6, 5, 3, 1, 1], [64, 32, 16, 8, 4, 2, 1, 1],
    [8, 2, 2, 2, 1, 1], [1] * 16, [1] * 64, [128] + [1] * 128,
]


def dyadic(rng):
    """logits whose probabilities are small dyadic numbers, recorded exactly"""
    w = list(rng.choice(DY))
    p = [x / sum(w) for x in w]
    return [f32(math.log(x)) for x in p], p


def put_list(sc, rng, l, n=None, style=None, ids=None, cap=24, distinct=True, bigcap=300,
             regular=True):
    """create a list with truthful flags; returns (ids, logits)"""
    if n is None:
        n = size(rng, cap, bigcap=bigcap)
    v = logits(rng, n, style)
    how = rng.random()
    if how < 0.35 and ids is None:
        sc.new(l, v, rng.choice(["iter", "vec", "fn"]))
        return list(range(n)), v
    ids = ids_for(rng, n) if ids is None else ids
    if not distinct and n > 1:
        for _ in range(rng.randint(1, max(1, n // 2))):
            ids[rng.randrange(n)] = ids[rng.randrange(n)]
    flag = rng.random()
    so = sm = False
    probs = [0.0] * n
    if flag < 0.25:
        so = True
    elif flag < 0.45:
        so = sm = True
    elif flag < 0.55:
        sm = True
    elif flag < 0.75:
        # stale probabilities, not marked as computed
        probs = [rng.random() for _ in range(n)]
    if so:
        v.sort(key=lambda x: -x)
    if sm:
        probs = softmax(v)
    sc.raw(l, ids, v, so, sm, probs)
    return ids, v


def put_dyadic(sc, rng, l):
    v, p = dyadic(rng)
    n = len(v)
    ids = ids_for(rng, n)
    order = sorted(range(n), key=lambda i: -v[i])
    if rng.random() < 0.4:
        rng.shuffle(order)
        so = False
    else:
        so = True
    sc.raw(l, ids, [v[i] for i in order], so, True, [p[i] for i in order])
    return ids, [v[i] for i in order], sorted(p, reverse=True)


def mk_choice(rng, n, lo=0):
    r = rng.random()
    if r < 0.35:
        v = 1
    elif r < 0.5:
        v = 0
    elif r < 0.65:
        v = max(0, n - 1)
    elif r < 0.75:
        v = n
    elif r < 0.82:
        v = n + 1
    elif r < 0.87:
        return rng.choice(HUGE)
    else:
        v = rng.randint(0, n + 2)
    return max(lo, v)


def cum_points(probs):
    c, out = 0.0, []
    for p in sorted(probs, reverse=True):
        c += p
        out.append(c)
    return out


def prob_param(rng, vals, probs=None):
    """a p / z-like parameter, sometimes exactly at a cumulative sum"""
    r = rng.random()
    if probs and r < 0.6:
        return rng.choice(cum_points(probs))
    if r < 0.75:
        return rng.uniform(0, 1)
    if r < 0.8:
        return rng.uniform(0.9, 1)
    if r < 0.9 and vals:
        # near, but not at, a boundary
        c = cum_points(softmax(vals))
        return rng.choice(c) + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-4, -2)
    return rng.choice([0.0, 1.0, -0.0, -1.0, 2.0, 0.5, 1e-30, 0.999999, 1.0000001, -math.inf, math.inf, 1e38])


def filter_cfg(rng, kind, vals, probs=None, lo=0):
    n = len(vals)
    c = {"k": kind, "how": rng.choice(["new", "with"])}
    us(c, "mk", mk_choice(rng, n, lo))
    if kind == "topk":
        us(c, "n", rng.choice([0, 1, 2, 3, max(0, n - 1), n, n + 1, n // 2, 40, rng.choice(HUGE)]))
    elif kind in ("topp", "loctyp"):
        c["p"] = b(prob_param(rng, vals, probs))
    elif kind == "tailfree":
        z = prob_param(rng, vals)
        if probs and len(probs) >= 3 and rng.random() < 0.6:
            d1 = [probs[i] - probs[i + 1] for i in range(len(probs) - 1)]
            d2 = [abs(d1[i] - d1[i + 1]) for i in range(len(d1) - 1)]
            s = sum(d2)
            if s > 0:
                acc, pts = 0.0, []
                for x in d2:
                    acc += x
                    pts.append(acc / s)
                z = rng.choice(pts)
        c["z"] = b(z)
    elif kind == "minp":
        ps = sorted(probs or softmax(vals), reverse=True)
        r = rng.random()
        if ps and ps[0] > 0 and r < (0.6 if probs else 0.2):
            c["p"] = b(rng.choice(ps) / ps[0])
        elif r < 0.85:
            c["p"] = b(10.0 ** rng.uniform(-5, 0))
        else:
            c["p"] = b(rng.choice([0.0, -0.0, 1.0, 2.0, -1.0, -0.1, -1e-40, math.inf, -math.inf, 1e-40]))
    elif kind == "topa":
        ps = sorted(probs or softmax(vals), reverse=True)
        r = rng.random()
        c["a2"] = b(rng.choice([1.0, 2.0, 1.0, 2.0, 0.5, 0.0, -1.0, 3.0, rng.uniform(0.1, 3)]))
        if ps and ps[0] > 0 and r < (0.6 if probs else 0.2):
            a2 = unb(c["a2"])
            c["a1"] = b(rng.choice(ps) / ps[0] ** a2)
        elif r < 0.85:
            c["a1"] = b(10.0 ** rng.uniform(-4, 0.5))
        else:
            c["a1"] = b(rng.choice([0.0, -0.0, 1.0, 2.0, -1.0, -1e-3, 1e-40, math.inf, -math.inf]))
            c["a2"] = b(rng.choice([0.0, 1.0, 2.0, -2.0, math.inf, 40.0]))
    return c


def temp_cfg(rng, sane=False):
    if sane:
        t = rng.choice([0.0, 1.0, 0.5, 0.1, 2.0, rng.uniform(0.05, 5)])
    else:
        t = rng.choice([0.0, -0.0, 1.0, 0.5, 2.0, -1.0, -0.5, 0.1, 1e-3, 100.0, 1.0000001, 4.0, -3.0,
                        rng.choice([1e-39, 1e-45, -1e-40, 1e-38, 3e38, 1e30, -1e-20, 1.5e-36]),
                        rng.uniform(0.05, 5), rng.uniform(-5, -0.05), rng.uniform(0.05, 5),
                        rng.choice([1, -1]) * 10 ** rng.uniform(-9, 9)])
    return {"k": "temp", "t": b(t), "how": rng.choice(["new", "with"])}


def flat_cfg(rng, ids, ban=0.15, finite=False):
    n = rng.choice([0, 1, 1, 2, 3, 5, rng.randint(0, 12)])
    bs = []
    for _ in range(n):
        t = rng.choice(ids) if ids and rng.random() < 0.8 else rng.choice([0, 7, 99999, (1 << 32) - 1, 1 << 31])
        r = rng.random()
        v = -math.inf if r < ban else rng.choice([0.0, -0.0, 1.0, -1.0, rng.gauss(0, 3), rng.gauss(0, 30)])
        if not finite and r > 0.97:
            v = math.inf
        bs.append([t32(t), b(v)])
    return {"k": "flat", "b": bs, "how": rng.choice(["new", "with"])}


def last_n(rng, h):
    r = rng.random()
    if r < 0.6:
        return rng.randint(0, h + 2)
    if r < 0.85:
        return rng.choice([0, 1, max(0, h - 1), h, h + 1, 64])
    return rng.choice([64, 1000, rng.choice(HUGE)])


def pen_cfg(rng, kind, h, sane=False):
    c = {"k": kind, "how": rng.choice(["new", "with"])}
    us(c, "ln", last_n(rng, h))
    if kind == "rep":
        c["pen"] = b(rng.choice([1.1, 1.5, 2.0, 4.0, 1.0000001, 10.0, rng.uniform(1, 3)]
                                + ([] if sane else [1.0, 0.5, 0.0, -1.0, 1.0, -2.0])))
    elif kind == "freq":
        pool = [0.0, 0.5, 1.0, 0.1, 2.5, rng.uniform(0, 3)] + ([] if sane else [-0.0, -0.5, -2.0, rng.uniform(-3, 0)])
        c["f"], c["p"] = b(rng.choice(pool)), b(rng.choice(pool))
        if rng.random() < 0.15:
            c["f"] = b(-c["p"]) if False else c["f"]
    else:
        pool = [0.0, 0.5, 1.0, 0.1, 2.5, rng.uniform(0, 3)] + ([] if sane else [-0.5, -0.0, rng.uniform(-3, 0)])
        c["f"], c["s"] = b(rng.choice(pool)), b(rng.choice(pool))
        us(c, "ml", rng.choice([2, 2, 2, 3, 3, 4, 5, 0, 1, 8, rng.choice([2, 3, rng.choice(HUGE)])]))
        us(c, "tol", rng.choice([0, 0, 0, 1, 1, 2, 3, rng.choice([0, 5, rng.choice(HUGE)])]))
        us(c, "mm", rng.choice([0, 1, 1, 2, 2, 3, 4, rng.choice([1, 9, rng.choice(HUGE)])]))
    return c


def miro_cfg(rng, kind, n, sane=False):
    tau = rng.choice([5.0, 3.0, 1.0, 0.5, 2.0, 8.0, rng.uniform(0.1, 10)])
    eta = rng.choice([0.1, 0.01, 0.5, 1.0, 0.0, rng.uniform(0, 2)])
    c = {"k": kind, "tau": b(tau), "eta": b(eta), "how": rng.choice(["new", "with"])}
    if rng.random() < 0.4:
        c["hmu"] = True
        c["mu"] = b(rng.choice([0.0, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, -1.0, 40.0, rng.uniform(0, 12)] * 2
                               + ([] if sane else [math.inf, -math.inf, 1e6, -1e30])))
    if kind == "miro1":
        us(c, "m", rng.choice([100, 100, 2, 3, 5, max(1, n), max(1, n - 1), n + 1, 1] + ([] if sane else [0])))
        us(c, "nv", rng.choice([max(1, n), 32000, 50257, 1000, 2] + ([] if sane else [1, 0])))
    return c


def any_cfg(rng, kind, ids, vals, hist, sane=False):
    if kind in FILTERS:
        return filter_cfg(rng, kind, vals, lo=1 if sane else 0)
    if kind == "temp":
        return temp_cfg(rng, sane)
    if kind == "flat":
        return flat_cfg(rng, ids, finite=sane)
    if kind in ("rep", "freq", "seqrep"):
        return pen_cfg(rng, kind, len(hist), sane)
    if kind in ("miro1", "miro2"):
        return miro_cfg(rng, kind, len(ids), sane)
    return {"k": kind, "how": rng.choice(["new", "with"])}


def history(rng, ids, n=None, alpha=None):
    if n is None:
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, rng.randint(0, 40), rng.randint(40, 90)])
    pool = list(ids) if ids else [1, 2, 3]
    rng.shuffle(pool)
    pool = pool[: (alpha or rng.choice([1, 2, 3, 4, 8, 20]))]
    if rng.random() < 0.5:
        pool.append(rng.choice([12345, 777, (1 << 32) - 5]))
    return [rng.choice(pool) for _ in range(n)]


def rep_history(rng, ids):
    """a history with planted repeats of its own end"""
    h = []
    pool = (list(ids) or [1, 2, 3])[: rng.choice([2, 3, 4, 8])]
    motif = [rng.choice(pool) for _ in range(rng.randint(2, 6))]
    for _ in range(rng.randint(1, 4)):
        h += [rng.choice(pool) for _ in range(rng.randint(0, 5))]
        m = list(motif)
        if rng.random() < 0.5 and m:
            m[rng.randrange(len(m))] = rng.choice(pool)
        if rng.random() < 0.3:
            m.insert(rng.randrange(len(m) + 1), rng.choice(pool))
        h += m
    h += [rng.choice(pool) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.8:
        h += motif
    return h
