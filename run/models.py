"""Behaviours of the specification, generated by TLC, as scenarios for the
real code.  For every property: the modules to explore, their bounds, and how
what they print becomes operations of the harness."""
import concurrent.futures
import json
import re

import driver as D
import gen
from util import Sc, b, t32, KINDS, STANDIN, VIAS

HUGE = 2147483647
UNSTAND = {v: k for k, v in STANDIN.items()}
MS = ["t", "s", "t", "lt", "t", "ls", "s"]
WORDS = [[0], [-1], [1 << 30], [-(1 << 31)], [-(1 << 30)], [1 << 28, -5], [123456789], [-987654321, 77]]
LINE = re.compile(r'^"(MENU|BASE|BEH) (.*)"$')


def explore(module, invs, consts, work, workers=8, props=(), heap="6g"):
    """model check; returns (stats, menu, behaviours)"""
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {i}\n" for i in invs)
           + "".join(f"PROPERTY {p}\n" for p in props)
           + "".join(f"CONSTANT {k} {'<-' if str(v).startswith('<-') else '='} {str(v).removeprefix('<-')}\n"
                     for k, v in consts.items()))
    r = D.tlc(module, cfg, f"{work}/model", workers=workers, heap=heap)
    menu, beh, seen = [], [], set()
    for ln in r["out"].split("\n"):
        m = LINE.match(ln)
        if not m or ln in seen:
            continue
        seen.add(ln)
        x = json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))
        if m.group(1) == "MENU":
            menu = x
        else:
            beh.append(x)
    bad = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|Action property (?:\S+) is violated|Action property line", r["out"])
    stats = {"violated": bad and (bad.group(1) or "temporal"), "gen": r["gen"], "distinct": r["distinct"]}
    if not bad and (r["rc"] != 0 or "No error has been found" not in r["out"]):
        raise D.ToolError(f"model {module} {consts}:\n" + r["out"][-3500:])
    if bad:
        stats["out"] = r["out"][-3000:]
    beh.sort(key=json.dumps)
    return stats, menu, beh


def conf(c, n):
    """the n-th use of menu entry c: constructor or builder methods, and the
    largest number either as such or as the largest usize"""
    c = dict(c)
    c["how"] = "with" if n % 3 == 1 else "new"
    if n % 2:
        for k in ("mk", "n", "ln", "ml", "tol", "mm", "m", "nv"):
            if c.get(k) == HUGE:
                c[k + "x"] = "18446744073709551615"
    return c


# ---------------------------------------------------------------- MC.tla
def base_ops(sc, x, words):
    sc.op(op="raw", l="a", e=x["e"], fso=x["so"], fsm=x["sm"])
    rs = []
    if x["rng"] or x["hh"]:
        for j, w in enumerate(words if x["rng"] else [None]):
            sc.op(op="res", r=f"r{j}", rng={"words": w} if w else "none", hr=bool(w), hh=x["hh"],
                  hist=x["h"], kind="simple")
            rs.append(f"r{j}")
    return rs


def r_list(prop, size, menu, bases, chunk=120):
    scs, n = [], 0
    for bi, x in enumerate(bases):
        if x["path"]:
            sc = Sc(**({"c14": True} if prop == "C14" else {}))
            rs = base_ops(sc, x, [WORDS[bi % len(WORDS)]])
            for j, k in enumerate(x["path"]):
                c = menu[k - 1]
                if c["k"] in ("sort", "soft"):
                    sc.op(op=c["k"], l="a")
                else:
                    sc.mk(f"s{j}", conf(c, bi + j))
                    sc.run(f"s{j}", "a", rs[0] if rs else None, MS[(bi + j) % len(MS)])
            scs.append(sc)
            continue
        words = WORDS if prop == "C13" else [WORDS[bi % 8], WORDS[(bi + 3) % 8]]
        tries = [(c, r) for c in menu for r in (range(len(words)) if prop == "C13" and x["rng"] else [0])]
        for at in range(0, len(tries), chunk):
            sc = Sc()
            rs = base_ops(sc, x, words)
            for j, (c, r) in enumerate(tries[at:at + chunk]):
                n += 1
                o = dict(op="try", l="a", cfg=conf(c, n + bi), m=MS[n % len(MS)])
                if rs:
                    o["r"] = rs[(r or n) % len(rs)]
                sc.op(**o)
            scs.append(sc)
    return scs


def m_list(prop, size):
    return [("MC.tla", ["TypeOK", "AllRight", "Truth", "NeverBanned", "Emitted"],
             {"Prop": f'"{prop}"', "Size": size, "Bug": '"none"', "Emit": "TRUE"}, r_list)]


# ---------------------------------------------------------------- MCConfig.tla
def sampler(sc, kind, cfg, n, name="s"):
    """the sampler the model starts from"""
    if cfg["k"] == "spy":
        c = {"k": "spy", "id": "sp", "quiet": True, "acts": ["none"], "table": cfg["table"]}
        if n % 5 == 4:
            sc.op(op="mk8", s="s8", cfg=dict(c, u8=True))
            return "s8"
    else:
        c = conf(cfg, n)
        if "t" in c and n % 7 == 3:
            c["wrap"] = "built"
    sc.mk(name, c)
    return name


def r_conf(prop, size, menu, beh, per=12):
    scs = []
    groups = {}
    for x in beh:
        groups.setdefault(x["kind"], []).append(x)
    for kind in sorted(groups):
        g = groups[kind]
        for at in range(0, len(g), per):
            sc = Sc()
            for x in g[at:at + per]:
                text = "".join(x["str"])
                if x["cfg"]["k"] in ("u", "f", "b"):
                    sc.op(op="parse", ty=x["cfg"]["k"], str=text)
                else:
                    s = sampler(sc, kind, x["cfg"], at // per)
                    sc.op(op="cfg", s=s, str=text)
            scs.append(sc)
    return scs


def mval(v):
    """a value of the model for the harness"""
    return {"u": {"t": "u", "d": "5"}, "f": {"t": "f", "v": [1072168960, 0]},
            "b": {"t": "b", "b": True}, "s": {"t": "s", "d": "q"}}[v["t"]]


def r_set(prop, size, menu, beh, per=4):
    scs = []
    for at in range(0, len(beh), per):
        sc = Sc()
        for x in beh[at:at + per]:
            if not x["path"]:
                continue
            if prop == "C31" and x["cfg"]["k"] == "spy":
                continue
            n = at // per
            s = sampler(sc, x["kind"], x["cfg"], n if prop == "C24" else 0, f"s{beh.index(x, at) - at}")
            if prop == "C31":
                sc.op(op="md", s=s)
            for j, st in enumerate(x["path"]):
                o = dict(op="set", s=s, key="".join(st["key"]), val=mval(st["val"]))
                if prop == "C31" and j == 0:
                    o["adv"] = True              # full name and type, as advertised
                sc.op(**o)
                if prop == "C24":
                    sc.op(op="get", s=s, key="".join(st["key"]))
            if prop == "C31":
                sc.op(op="md", s=s)
        scs.append(sc)
    return scs


CONF_INV = ["TypeOK", "Agree", "NumAgree", "WordAgree", "SetRight", "Emitted"]


def m_conf(*modes):
    def f(prop, size):
        return [("MCConfig.tla", CONF_INV, {"Mode": f'"{m}"', "Size": size, "Emit": "TRUE", "Bug": '"none"'},
                 r_set if m == "set" else r_conf) for m in modes]
    return f


# ---------------------------------------------------------------- MCHooks.tla
def r_hooks(prop, size, menu, beh, per=10):
    scs = []
    for at in range(0, len(beh), per):
        sc = Sc()
        for j, x in enumerate(beh[at:at + per]):
            n = at + j
            c = {"k": "hspy", "hooks": x["kind"], "id": "sp", "quiet": True, "acts": ["none"], "table": "full"}
            if n % 3 == 2 and all(st["how"] == "cfg" for st in x["path"]):
                # in a builder: its only sampler, or one made for each string
                one = n % 2
                sc.op(op="b_new", b=f"b{j}")
                sc.op(op="b_push", b=f"b{j}", name="a", ty="single" if one else "chain", fac=c,
                      init=[c] if one else [], how="push")
                for st in x["path"]:
                    sc.op(op="b_cfg", b=f"b{j}", name="a", str="".join(st["str"]))
                continue
            if n % 3 == 1:
                c["wrap"] = "built"
            sc.mk(f"s{j}", c)
            for st in x["path"]:
                if st["how"] == "set":
                    sc.op(op="set", s=f"s{j}", key="".join(st["key"]), val=mval(st["val"]))
                else:
                    sc.op(op="cfg", s=f"s{j}", str="".join(st["str"]))
        scs.append(sc)
    return scs


def m_hooks(prop, size):
    return [("MCHooks.tla", ["TypeOK", "Agree", "InTurn", "NoTrace", "Refused", "Emitted"],
             {"Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_hooks)]


# ---------------------------------------------------------------- MCErr.tla
def r_err(prop, size, menu, beh, per=8):
    scs = []
    for at in range(0, len(beh), per):
        sc = Sc()
        for j, x in enumerate(beh[at:at + per]):
            n, text = at + j, "".join(x["str"])
            c = dict(x["cfg"], id="sp", quiet=True, acts=["none"]) if "table" in x["cfg"] else dict(x["cfg"])
            if x["kind"] == "spy8":
                sc.op(op="mk8", s=f"s{j}", cfg=dict(c, u8=True))
            elif n % 3 == 2:
                sc.op(op="b_new", b=f"b{j}")
                name = ["a", "min_p", "", "Slot One", "=", "a:b"][n % 6]
                for k, ty in enumerate(["static", "chain", "single"]):
                    sc.op(op="b_push", b=f"b{j}", name=f"{name}{k}", ty=ty, fac=c, init=[c] if k == 2 and n % 2 else [], how="push")
                for k in [1, 2, 2]:
                    sc.op(op="b_cfg", b=f"b{j}", name=f"{name}{k}", str=text)
                sc.op(op="b_cfg", b=f"b{j}", name=f"{name}{[0, 3][n % 2]}", str=text)
                continue
            else:
                sc.mk(f"s{j}", dict(c, wrap="built") if n % 3 == 1 else c)
            sc.op(op="cfg", s=f"s{j}", str=text)
            key = "".join(x["path"][-1][0])
            sc.op(op="get", s=f"s{j}", key=key)
            sc.op(op="set", s=f"s{j}", key=key, val=VALS[n % 5])
        scs.append(sc)
    return scs


VALS = [{"t": "u", "d": "300"}, {"t": "f", "v": [1072168960, 0]}, {"t": "b", "b": True}, {"t": "s", "d": "q"}, {"t": "u", "d": "7"}]


def m_err(prop, size):
    return [("MCErr.tla", ["TypeOK", "Agree", "NamesIt", "OwnWords", "Alone", "InSlots", "Emitted"],
             {"Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_err, ["Stays"])]


# ---------------------------------------------------------------- MCMake.tla
def r_make(prop, size, menu, beh, per=10):
    scs = []
    for at in range(0, len(beh), per):
        sc = Sc()
        for j, x in enumerate(beh[at:at + per]):
            c = {"k": x["kind"], "how": "calls", "from": x["from"], "args": x["args"], "calls": x["calls"]}
            if (at + j) % 5 == 4:
                c["wrap"] = "built"
            sc.mk(f"s{j}", c)
            sc.op(op="get", s=f"s{j}", key=gen.OPTS[x["kind"]][0][0])
        scs.append(sc)
    return scs


def m_make(prop, size):
    return [("MCMake.tla", ["TypeOK", "Agree", "LastGiven", "NoOrder", "Emitted"],
             {"Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_make)]


# ---------------------------------------------------------------- MCBuilder.tla
def spyfix(c):
    c = dict(c)
    if c["k"] == "spy":
        c["acts"] = ["none"]
    return c


def r_builder(prop, size, menu, beh):
    scs = []
    hows = ["push", "add", "addassign", "from"]
    for n, x in enumerate(beh):
        sc = Sc()
        sc.op(op="b_new", b="b")
        for j, o in enumerate(x["ops"]):
            if o["op"] == "b_push":
                p = o["p"]
                sc.op(op="b_push", b="b", name=p["name"], ty=p["ty"], fac=spyfix(p["fac"]),
                      init=[spyfix(c) for c in p["init"]], how=hows[(n + j) % 4])
            elif o["op"] == "b_cfg":
                sc.op(op="b_cfg", b="b", name=o["name"], str="".join(o["str"]))
            else:
                sc.op(op="b_ensure", b="b", i=o["i"])
        sc.op(op="b_chain", b="b", s="c")
        sc.new("l", [1.0, 3.0, -2.0, 0.5, 2.0, 0.0])
        sc.res("r", seed=3, hist=[])
        sc.run("c", "l", "r", "ts"[n % 2])
        scs.append(sc)
    return scs


def m_builder(prop, size):
    return [("MCBuilder.tla", ["TypeOK", "HoldsWhatWasMade", "Stable", "InOrder", "Emitted"],
             {"Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_builder)]


# ---------------------------------------------------------------- MCChain.tla
CH_LISTS = {"one": [[10, b(1.0), 0], [11, b(3.0), 0], [12, b(2.0), 0]],
            "two": [[22, b(1.0), 0], [21, b(2.0), 0]], "empty": []}
WRAPS = ["", "box", "", "arc", "built", "", "boxarc", "box2", "arcbox", "boxbuilt"]


def r_chain(prop, size, menu, beh):
    scs = []
    for n, x in enumerate(beh):
        cmp, same = [], []
        sc = Sc(cmp=cmp, same=same) if prop == "C20" else Sc()
        leaves = []

        def mem(t, d=0):
            out = []
            for m in t["mem"]:
                if m["i"]:
                    c = dict(menu[m["i"] - 1])
                    j = len(leaves)
                    if c["k"] == "spy":
                        bad = ["fail", "intr", "lack", "bad"][(n + j) % 4]
                        c.update(id=f"x{j}", quiet=prop != "C34", acts=[bad if a == "fail" else a for a in c["acts"]])
                    leaves.append(c)
                    w = WRAPS[(n + 3 * j) % len(WRAPS)]
                    out.append(dict(c, wrap=w) if w else dict(c))
                else:
                    w = ["", "", "box", "", "arc"][(n + len(leaves)) % 5]
                    out.append(dict(k="chain", mem=mem(m, d + 1), how=["push", "add", "addassign"][(n + d) % 3], wrap=w))
            return out

        tree = mem(x["tree"])
        if prop == "C29":
            sc.res("r", seed=None, hist=[4] if n % 2 else [])
            sc.mk("c", {"k": "chain", "mem": tree, "how": ["push", "add", "addassign"][n % 3],
                        "wrap": ["", "box", "arc", ""][n % 4]})
            sc.op(op="hook", s="c", r="r")
            if n % 3 == 0:
                sc.op(op="hook", s="c", r="r")
            scs.append(sc)
            continue
        h = [10, 11, 10, 11]
        if prop == "C20":
            sc.res("ra", hist=h)
            sc.res("rb", hist=h)
            if n % 4 == 1:
                # every sampler of the chain visible
                k = [0]

                def refs(ms):
                    out = []
                    for m in ms:
                        if m["k"] == "chain":
                            out.append(dict(m, mem=refs(m["mem"]), wrap=""))
                        else:
                            sc.mk(f"a{k[0]}", leaves[k[0]])
                            out.append({"ref": f"a{k[0]}"})
                            k[0] += 1
                    return out
                tree = refs(tree)
            for j, c in enumerate(leaves):
                sc.mk(f"b{j}", c)
        else:
            sc.res("ra", hist=h)
        sc.mk("c", {"k": "chain", "mem": tree, "how": ["push", "add", "addassign"][n % 3]})
        for j, p in enumerate(x["plan"]):
            if p != "same":
                sc.op(op="raw", l="a", e=CH_LISTS[p], fso=False, fsm=False)
                if prop == "C20":
                    sc.op(op="cp", l="b", **{"from": "a"})
            i1 = sc.run("c", "a", "ra", MS[(n + j) % 3] if prop == "C20" else MS[(n + j) % len(MS)])
            if prop == "C20":
                i2 = sc.op(op="seq", ss=[f"b{i}" for i in range(len(leaves))], l="b", r="rb")
                cmp.append([i1, i2])
        if prop == "C20":
            same.append([sc.op(op="peek", r="ra"), sc.op(op="peek", r="rb")])
        scs.append(sc)
    return scs


def m_chain(prop, size):
    return [("MCChain.tla", ["TypeOK", "OneByOne", "Latest", "HookAll", "Emitted"],
             {"Prop": f'"{prop}"', "Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_chain)]


# ---------------------------------------------------------------- MCShared.tla
def schedule(log):
    """the order in which runs reach the sampler (or, poisoned, return)"""
    out, open_ = [], set()
    for e, th in log:
        if e == "ask":
            continue
        if e in ("exec", "hooked"):
            if th not in open_:
                out.append(th - 1)
                open_.add(th)
        else:
            if th not in open_:
                out.append(th - 1)
            open_.discard(th)
    return tuple(out)


def r_shared(prop, size, menu, beh):
    scs, seen = [], set()
    for x in beh:
        s = schedule(x["log"])
        key = (tuple(x["routes"]), x["panic"], x["fail"], s)
        if key in seen:
            continue
        seen.add(key)
        sc = Sc()
        sc.op(op="share", cfg={"k": "probe"}, routes=x["routes"], runs=x["runs"], sched=list(s),
              panic_at=-1 if x["panic"] == 99 else x["panic"], fail_at=-1 if x["fail"] == 99 else x["fail"],
              fail_every=0, spin=0)
        scs.append(sc)
    return scs


def m_asks(prop, size):
    return m_shared(prop, size)[-6:]


def m_shared(prop, size):
    out = []
    grid = [("R2", 2), ("R3", 1)] if size == 1 else [("R2", 3), ("R3", 1), ("R4", 1), ("R3", 2)]
    for routes, runs in grid:
        for pf in [(99, 99), (0, 99), (1, 99), (99, 1), (2, 0)] if size == 1 or (routes, runs) != ("R3", 2) else [(99, 99), (2, 99)]:
            out.append(("MCShared.tla", ["TypeOK", "Exclusive", "Logs", "Emitted"],
                        {"Routes": f"<-{routes}", "Runs": runs, "PanicNo": pf[0], "FailNo": pf[1],
                         "Bug": '"none"', "Emit": "TRUE"}, r_shared, ["Done"]))
    for routes, runs in [("RH", 1), ("RC", 1)] if size == 1 else [("RH", 2), ("RC", 2)]:
        for pf in [(99, 99), (0, 99), (99, 0)]:
            out.append(("MCShared.tla", ["TypeOK", "Exclusive", "Logs", "Emitted"],
                        {"Routes": f"<-{routes}", "Runs": runs, "PanicNo": pf[0], "FailNo": pf[1],
                         "Bug": '"none"', "Emit": "TRUE"}, r_shared, ["Done"]))
    return out


# ---------------------------------------------------------------- MCMiro.tla
def r_miro(prop, size, menu, beh):
    scs = []
    for n, x in enumerate(beh):
        for v in range(2):
            sc = Sc()
            sc.res("r", words=[w for j in range(3) for w in WORDS[(n * (v + 1) + 3 * v + j) % 8]])
            sc.res("none")
            sc.mk("s", conf(x["cfg"], n + v))
            for j, k in enumerate(x["path"]):
                st = menu[k - 1]
                sc.op(op="raw", l="a", e=st["L"]["e"], fso=st["L"]["so"], fsm=st["L"]["sm"])
                sc.run("s", "a", "r" if st["rng"] else "none", MS[(n + j) % len(MS)])
            scs.append(sc)
    return scs


def m_miro(prop, size):
    return m_list(prop, size) + [
        ("MCMiro.tla", ["TypeOK", "AllRight", "Steered", "Emitted"],
         {"Prop": f'"{prop}"', "Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_miro)]


# ---------------------------------------------------------------- MCList.tla
def r_new(prop, size, menu, beh, per=6):
    scs = []
    vias = VIAS
    for at in range(0, len(beh), per):
        sc = Sc()
        for n, x in enumerate(beh[at:at + per]):
            n += at
            sc.op(op="new", l="l", v=x["v"], via=vias[n % 6])
            for k in x["ks"]:
                o = dict(op="newk", l="l", v=x["v"], n=k, via=vias[(n + k) % 6])
                if k == HUGE and n % 3:
                    o["nx"] = "18446744073709551615" if n % 3 == 1 else "9223372036854775808"
                    o["n"] = STANDIN[o["nx"]]
                sc.op(**o)
        scs.append(sc)
    return scs


def m_new(prop, size):
    return [("MCList.tla", ["TypeOK", "PlainOK", "NaNOK", "TopOK", "Emitted"],
             {"Size": size, "Emit": "TRUE", "Bug": '"none"'}, r_new)]


# ---------------------------------------------------------------- MCPair.tla
PAIR = [{"k": "miro2", "tau": b(1.0), "eta": b(0.5)}, {"k": "rand"},
        {"k": "miro1", "tau": b(1.0), "eta": b(0.5), "m": 3, "nv": 50},
        {"k": "seqrep", "f": b(0.5), "s": b(0.25), "ml": 2, "tol": 0, "mm": 1, "ln": 64},
        {"k": "freq", "f": b(0.5), "p": b(0.25), "ln": 9}, {"k": "rep", "pen": b(2.0), "ln": 3},
        {"k": "chain", "mem": [{"k": "topk", "n": 3, "mk": 1}, {"k": "miro2", "tau": b(2.0), "eta": b(1.0)}]},
        {"k": "loctyp", "p": b(0.6), "mk": 1}, {"k": "tailfree", "z": b(0.5), "mk": 1},
        {"k": "topp", "p": b(0.7), "mk": 1}, {"k": "minp", "p": b(0.25), "mk": 1}, {"k": "topk", "n": 3, "mk": 1},
        {"k": "topa", "a1": b(0.5), "a2": b(1.0), "mk": 1}, {"k": "temp", "t": b(0.5)},
        {"k": "flat", "b": [[1, b(2.0)], [3, b(-1.0)]]}, {"k": "greedy"},
        {"k": "chain", "mem": [{"k": "freq", "f": b(0.5), "p": b(0.5), "ln": 64}, {"k": "temp", "t": b(0.7)},
                               {"k": "topp", "p": b(0.9), "mk": 1}, {"k": "rand"}]}]
PAIR_V = [[1.0, 0.5, 2.0, 0.0, 1.5], [0.25, 0.25, 1.0, -1.0, 0.0], [2.0, 1.0, 0.0, 2.0, -0.5]]


def r_pair(prop, size, menu, beh):
    scs = []
    for n, x in enumerate(beh):
        for kn in {(n * 2) % len(PAIR), (n * 2 + 1) % len(PAIR)} if size == 1 else range(len(PAIR)):
            cfg = PAIR[kn]
            same = []
            sc = Sc(same=same)
            noise = dict(cfg)
            for k, y in (("tau", 3.0), ("f", 1.0), ("t", 2.0), ("pen", 1.25), ("p", 0.5)):
                if k in noise:
                    noise[k] = b(y)
            for who, c in ((1, cfg), (2, cfg), (3, noise)):
                sc.mk(f"s{who}", c)
                sc.res(f"r{who}", seed=7 if who < 3 else 8, hist=[1, 2, 1, 2] if who < 3 else [3, 3, 0])
            pos, evs = {1: 0, 2: 0, 3: 0}, {1: [], 2: [], 3: []}

            def step(who):
                v = PAIR_V[(pos[who] + who // 3) % 3]
                sc.new(f"l{who}", v)
                if pos[who]:
                    sc.op(op="push", r=f"r{who}", toks=[pos[who] % 2 + 1])
                evs[who].append(sc.run(f"s{who}", f"l{who}", f"r{who}", "t"))
                pos[who] += 1

            for who, th in x["word"]:
                if th:
                    sc.thr(lambda: step(who))
                else:
                    step(who)
            same += [list(p) for p in zip(evs[1], evs[2])]
            scs.append(sc)
    return scs


def m_pair(prop, size):
    return [("MCPair.tla", ["TypeOK", "Same", "Emitted"],
             {"Steps": 3, "Noise": 1 if size == 1 else 2, "Emit": "TRUE", "Bug": '"none"'}, r_pair)]


# ---------------------------------------------------------------- MCWild.tla
def r_wild(prop, size, menu, beh, chunk=150):
    scs, n = [], 0
    for bi, x in enumerate(beh):
        for at in range(0, len(menu), chunk):
            sc = Sc()
            sc.op(op="raw", l="a", e=x["e"], fso=False, fsm=False)
            if x["soft"]:
                sc.op(op="soft", l="a")
            sc.res("r", words=WORDS[bi % 8], hist=x["hist"])
            for c in menu[at:at + chunk]:
                n += 1
                sc.op(op="try", l="a", r="r", cfg=conf(c, n + bi), m=MS[n % len(MS)])
            scs.append(sc)
    return scs


def m_wild(prop, size):
    return [("MCWild.tla", ["TypeOK", "Emitted"], {"Size": size, "Emit": "TRUE"}, r_wild)]


# --------------------------------------------------------------- MCFrame.tla
def r_frame(prop, size, menu, beh):
    import random
    import gen as G
    scs = []
    for bi, x in enumerate(beh):
        rng = random.Random(f"frame:{bi}")
        sc = Sc()
        n = rng.choice([3, 4, 6])
        ids = G.ids_for(rng, n)
        vals = G.logits(rng, n, "norm")
        hist = [t32(rng.choice(ids)) for _ in range(rng.choice([0, 2, n, 7]))]
        pure = [k for k in KINDS if k not in ("rand", "miro1", "miro2", "greedy")]
        fk, gk = pure[bi % len(pure)], pure[(bi // len(pure)) % len(pure)]
        mk = ["miro1", "miro2"][bi % 2]
        sc.raw("a", ids, vals)
        bad = list(vals)
        bad[bi % n] = float("nan")
        sc.raw("b", ids, bad)
        sc.res("r", words=WORDS[bi % 8], hist=hist)
        sc.res("q", seed=bi, hist=hist[:1])
        for s, k in (("f", fk), ("g", gk), ("p", "rand"), ("m", mk)):
            sc.mk(s, G.any_cfg(rng, k, ids, vals, hist, sane=True))
        for s, m in (("c", "fgp"), ("d", "gm")):
            sc.mk(s, {"k": "chain", "mem": [{"ref": y} for y in m]})
        sc.op(op="look")
        for j, w in enumerate(x["word"]):
            if w["op"] == "run":
                sc.run(w["s"], w["l"], None if w["r"] == "none" else w["r"], MS[(bi + j) % len(MS)])
            elif w["op"] == "set":
                key, ty = rng.choice(G.OPTS.get({"f": fk, "m": mk}[w["s"]]) or [("x", "u")])
                sc.op(op="set", s=w["s"], key=key, val={"t": "u", "d": "3"} if ty == "u" else {"t": "f", "v": [1071644672, 0]})
            elif w["op"] == "get":
                sc.op(op="get", s="m", key=["mu", "tau", "m"][j % 3])
            elif w["op"] == "push":
                sc.op(op="push", r=w["r"], toks=[hist[0] if hist else 5])
            elif w["op"] == "hook":
                sc.op(op="hook", s="c", r=w["r"])
            else:
                sc.op(op=w["op"], l=w["l"])
            sc.op(op="look")
        scs.append(sc)
    return scs


def m_frame(prop, size):
    return [("MCFrame.tla", ["TypeOK", "Counted", "Emitted"],
             {"Size": size, "Depth": 2 if size == 1 else 3, "Emit": "TRUE", "Bug": '"none"'}, r_frame, ["Frame"])]


def both(*fs):
    return lambda prop, size: [m for f in fs for m in f(prop, size)]


MODELS = {p: m_list for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14",
                              "C15", "C16", "C17", "C18", "C19", "C23")}
MODELS.update({"C10": m_miro, "C11": m_miro, "C20": m_chain, "C21": both(m_list, m_chain), "C22": m_shared,
               "C24": m_conf("set"), "C25": m_conf("cfg", "num"), "C26": m_builder, "C27": m_new, "C28": m_wild,
               "C29": both(m_chain, m_asks), "C30": m_pair, "C31": m_conf("set"), "C32": m_hooks, "C33": m_make,
               "C34": both(m_err, m_chain), "C35": m_frame})


def behaviours(prop, size, work):
    """explore every model of a property; returns (stats, scenarios)"""
    scs, stats, k = [], [], 0
    todo = MODELS[prop](prop, size)
    some = len(todo) > 2
    with concurrent.futures.ThreadPoolExecutor(4 if some else 1) as pool:
        done = list(pool.map(lambda im: explore(im[1][0], im[1][1], im[1][2], f"{work}/x{im[0]}", workers=2 if some else 8,
                                                heap="3g" if some else "6g", props=im[1][4] if len(im[1]) > 4 else ()),
                             enumerate(todo)))
    for (mod, invs, consts, replay, *props), (st, menu, beh) in zip(todo, done):
        if st["violated"]:
            raise D.ToolError(f"model {mod} breaks {st['violated']}:\n" + st["out"])
        got = replay(prop, size, menu, beh)
        scs += [s.out(f"m{k + i}") for i, s in enumerate(got)]
        k += len(got)
        stats.append({"module": mod, "constants": {a: str(c).strip('"') for a, c in consts.items()},
                      "states": st["distinct"], "transitions": st["gen"], "behaviours": len(beh), "scenarios": len(got)})
    return stats, scs
