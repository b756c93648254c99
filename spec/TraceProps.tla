------------------------------ MODULE TraceProps ------------------------------
(***************************************************************************)
(* The properties C01..C34 as invariants of Trace.                         *)
(***************************************************************************)
EXTENDS Trace, Shared

Inv_C01 == AllObs(P01)
Inv_C02 == AllObs(P02)
Inv_C03 == AllObs(P03)
Inv_C04 == AllObs(P04)
Inv_C05 == AllObs(P05)
Inv_C06 == AllObs(P06)
Inv_C07 == AllObs(P07)
Inv_C08 == AllObs(P08)
Inv_C09 == AllObs(P09)
Inv_C12 == AllObs(P12)
Inv_C15 == AllObs(P15)
Inv_C16 == AllObs(P16)
Inv_C17 == AllObs(P17)
Inv_C18 == AllObs(P18)

---------------------------------------------------------------------------
\* Frequencies of E.n independent draws from one list.  The list drawn from
\* is e; every count lies within 7 standard deviations of its expectation.
Tally(e, cnt) ==
    LET r == Softmax(e)
        n == RInt(E.n)
        \* a count of draws that each fall there with probability q
        ok(c, q) == LET x == RMul(n, q)
                        sd == RPow(RMul(x, RMax(R0, RSub(R1, q))), RQ(1, 2))
                    IN  RLe(RAbs(RSub(RInt(c), x)),
                            RAdd(RAdd(RMul(RInt(7), sd), RInt(6)), RMul(n, R10(-5))))
        cumr == CumR(r)
        cumc == TLCEval(FoldLeft(LAMBDA a, c : Append(a, c + (IF a = <<>> THEN 0 ELSE a[Len(a)])),
                                 <<>>, cnt))
        \* the tokens less likely than 10^-k, together
        rare(k) == LET I == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : RLt(r[i], R10(-k)))
                   IN  ok(FoldLeft(LAMBDA a, i : a + cnt[i], 0, I),
                          FoldLeft(LAMBDA a, i : RAdd(a, r[i]), R0, I))
    IN  /\ E.none = 0 /\ E.errs = 0
        /\ Len(cnt) = Len(e)
        /\ e # <<>> => cumc[Len(e)] = E.n
        /\ \A i \in 1..Len(e) :
              /\ ok(cnt[i], r[i])
              /\ ok(cumc[i], RMin(R1, cumr[i]))
              /\ (e[i][2] = FNegInf) => cnt[i] = 0
        /\ \A k \in 1..6 : rare(k)

\* the draws are independent: how often one repeats the one before
AgainOK ==
    LET r == Softmax(E.pre)
        x == RMul(RInt(E.n), FoldLeft(LAMBDA a, q : RAdd(a, RMul(q, q)), R0, r))
    IN  RLe(RAbs(RSub(RInt(E.again), x)),
            RAdd(RAdd(RMul(RInt(12), RPow(x, RQ(1, 2))), RInt(6)), RMul(RInt(E.n), R10(-5))))

\* the two recorded outcomes are the same, bit for bit
OutcomeFields == {"out", "err", "ret", "tok", "post", "so", "sm", "mu", "hist", "hh", "draws",
                  "word", "o0", "o1", "val", "counts", "first", "at", "outs"}
SameOutcome(a, b) ==
    \A f \in OutcomeFields : (f \in DOMAIN a /\ f \in DOMAIN b) => a[f] = b[f]
SamePairsHold ==
    (pos > 0 /\ Has1(Tag, "same")) =>
        \A i \in 1..Len(Tag.same) :
            IMax(Tag.same[i][1], Tag.same[i][2]) = pos =>
                SameOutcome(Ev[Tag.same[i][1]], Ev[Tag.same[i][2]])

Inv_C10 == /\ AllObs(P10)
           /\ (At("dist") /\ E.cfg.k = "miro2") => Tally(E.first, E.tallyfirst)
Inv_C11 == /\ AllObs(P11)
           /\ (At("dist") /\ E.cfg.k = "miro1") => Tally(E.first, E.tallyfirst)
Inv_C13 == /\ AllObs(P13)
           /\ (At("dist") /\ E.cfg.k = "rand") =>
                 /\ Tally(E.pre, E.tallypre)
                 /\ Has1(E, "pre2") => Tally(E.pre2, E.tally2)
                 /\ ~Has1(E, "pre2") => AgainOK
           /\ SamePairsHold

---------------------------------------------------------------------------
\* C14, on executions whose settings stay in range (tag c14)
FiniteLeft(o) == \E i \in 1..N(o) : FIsFinite(o.pre[i][2]) /\ o.pre[i][1] \notin o.ban
P14(o) ==
    (/\ o.sane /\ o.cfg.k # "sort" /\ o.cfg.k # "soft"
     /\ o.ban # {} /\ o.rng /\ o.hh
     /\ NoNaN(o.pre) /\ FiniteLeft(o)) =>
        /\ Ok(o)
        /\ o.tok = <<>> \/ o.tok[1] \notin o.ban
        /\ o.ret = <<>> \/ o.ret[1] \notin o.ban
        /\ (o.lastk \in Pickers) => Len(o.tok) = 1
Inv_C14 ==
    (obs # <<>> /\ Has1(Tag, "c14")) =>
        LET o == obs[Len(obs)]
            lv == IF Has1(o.cfg, "mem") THEN Leaves(sams, o.cfg) ELSE <<o.cfg>>
        IN  P14([x \in DOMAIN o \cup {"lastk"} |->
                   IF x = "lastk" THEN (IF lv = <<>> THEN "" ELSE lv[Len(lv)].k) ELSE o[x]])

---------------------------------------------------------------------------
Inv_C19 ==
    /\ AllObs(P19)
    \* the distribution seen next is the one at that temperature
    /\ \A i \in 1..Len(obs) :
          /\ (obs[i].last = "temp" /\ Kind(obs[i]) = "soft" /\ Regular(obs[i].pre)
                /\ obs[i].pre # <<>>) => Softmaxed(obs[i].post) /\ Descending(obs[i].post)
          /\ (obs[i].last = "temp" /\ Kind(obs[i]) = "greedy" /\ NoNaN(obs[i].pre)
                /\ obs[i].pre # <<>>) =>
                \E j \in 1..N(obs[i]) : /\ <<obs[i].pre[j][1]>> = obs[i].tok
                                        /\ FEq(obs[i].pre[j][2], MaxLogit(obs[i].pre))

---------------------------------------------------------------------------
\* C20
\* the names a chain's recorded members have, in order, nested chains included
RECURSIVE RefNames(_)
RefNames(cfg) ==
    FoldLeft(LAMBDA a, m : IF Has1(m, "ref") THEN Append(a, m.ref)
                           ELSE IF m.k = "chain" THEN a \o RefNames(m) ELSE a,
             <<>>, cfg.mem)
AllRefs(cfg) == \A i \in 1..Len(cfg.mem) :
                   \/ Has1(cfg.mem[i], "ref") /\ sams[cfg.mem[i].ref].cfg.k # "chain"
                   \/ Has1(cfg.mem[i], "k") /\ cfg.mem[i].k = "chain" /\ cfg.mem[i].mem = <<>>
\* the last sampler is a chain without samplers, or ends in one
RECURSIVE EmptyLast(_)
EmptyLast(cfg) ==
    \/ cfg.mem = <<>>
    \/ LET m == cfg.mem[Len(cfg.mem)]
       IN  Has1(m, "k") /\ m.k = "chain" /\ EmptyLast(m)
OneByOne(e, pre, preso, presm) ==
    LET st == SelectSeq(e.steps, LAMBDA x : x.op = "member")
        n == Len(st)
        names == RefNames(sams[e.s].cfg)
    IN  /\ n <= Len(names)
        /\ \A i \in 1..n : st[i].s = names[i]
        /\ \A i \in 1..n : IF i = 1 THEN st[i].pre = pre /\ st[i].preso = preso /\ st[i].presm = presm
                           ELSE /\ st[i].pre = st[i - 1].post
                                /\ st[i].preso = st[i - 1].so
                                /\ st[i].presm = st[i - 1].sm
        /\ n > 0 => e.post = st[n].post /\ e.so = st[n].so /\ e.sm = st[n].sm
        /\ \A i \in 1..(n - 1) : st[i].out = "ok"
        /\ IF e.out = "ok"
           THEN /\ n = Len(names)
                /\ n > 0 => st[n].out = "ok"
                \* the token is what the chain's last sampler reports
                /\ IF EmptyLast(sams[e.s].cfg) THEN e.tok = <<>>
                   ELSE n > 0 => e.tok = st[n].tok
           ELSE n > 0 /\ st[n].out = "err" /\ e.err = st[n].err
Compared(a, b) ==   \* a: the chain's run; b: its samplers run one by one
    /\ a.out = b.out /\ a.err = b.err
    /\ a.post = b.post /\ a.so = b.so /\ a.sm = b.sm
    /\ (Has1(a, "hist") /\ Has1(b, "hist")) => a.hist = b.hist /\ a.draws = b.draws
    /\ a.out = "ok" => a.tok = IF EmptyLast(sams[a.s].cfg) THEN <<>> ELSE b.tok
P20(o) ==
    (Kind(o) = "chain") =>
        /\ o.cfg.mem = <<>> => Ok(o) /\ Unchanged(o) /\ o.tok = <<>> /\ o.ret = <<>>
        /\ (Ok(o) /\ o.m = "t") => o.ret = o.tok
        /\ ~Ok(o) => o.ret = <<>>
Inv_C20 ==
    /\ AllObs(P20)
    /\ (At("run") /\ sams[E.s].cfg.k = "chain" /\ AllRefs(sams[E.s].cfg)) =>
          LET o == obs[Len(obs)] IN OneByOne(E, o.pre, o.preso, o.presm)
    /\ (pos > 0 /\ Has1(Tag, "cmp")) =>
          \A i \in 1..Len(Tag.cmp) : Tag.cmp[i][2] = pos => Compared(Ev[Tag.cmp[i][1]], E)
    /\ SamePairsHold

---------------------------------------------------------------------------
Inv_C21 ==
    /\ AllObs(P21)
    /\ (At("addto") /\ Fine) => E.tok = <<>>

---------------------------------------------------------------------------
\* C22: the recorded interleaving of threads sharing one sampler.  An "exec"
\* event is written while the sampler's lock is held, so the order of these
\* events is the order of the executions.
TV == E.tev
SharedProbeOK ==
    /\ LogOK(TV)
    /\ E.lost = 0
    /\ E.fin = IF PanicAt(TV) <= Len(TV) THEN "err" ELSE E.fin
    /\ E.fin # "panic"
SharedBuiltInOK ==
    /\ \A i \in 1..Len(TV) :
          TV[i].e = "ret" => /\ TV[i].out = "ok"
                             /\ Len(TV[i].ret) = 1
                             /\ TV[i].ret[1] \in TV[i].base..(TV[i].base + 3)
    /\ E.lost = 0 /\ E.fin = "ok"
Inv_C22 == /\ pos > 0 => E.op # "crash"      \* neither hung nor aborted
           /\ At("share") =>
                  /\ E.out = "ok"
                  /\ IF E.cfg.k = "probe" THEN SharedProbeOK ELSE SharedBuiltInOK

---------------------------------------------------------------------------
\* C23.  The accessors call back exactly once if the resource is present.
AccOK ==
    LET had == IF E.which = "rng" THEN was.rng ELSE was.hh
        want == was.hist
    IN  IF had
        THEN /\ E.out = "ok" /\ E.calls = 1
             /\ E.which # "rng" => E.seen = want
             /\ E.hist = IF E.which = "ltm" THEN Append(want, 77) ELSE want
        ELSE E.out = "err" /\ E.calls = 0
Inv_C23 ==
    /\ AllObs(P23)
    /\ At("acc") => AccOK
    \* no operation makes a history appear or disappear
    /\ (AtAny({"acc", "run", "seq", "push", "peek", "hook"}) /\ Has1(E, "r")) => E.hh = was.hh

---------------------------------------------------------------------------
\* C24
OptWidth(e) == IF sams[e.s].cfg.k = "spy" /\ Has1(sams[e.s].cfg, "u8") THEN 8 ELSE 64
EqOpts(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* Mirostat's mu moves when the sampler runs
EqButMu(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : a[i].key = MuKey \/ a[i] = b[i]
SetOK ==
    LET r == SetOption(KindOf(sams[E.s].cfg), E.o0, E.keyc, E.val, OptWidth(E))
    IN  /\ E.out = (IF r.ok THEN "ok" ELSE "err")
        /\ EqOpts(E.o1, r.opts)
GetOK ==
    LET r == GetOption(E.o0, E.keyc)
    IN  /\ E.out = (IF r.ok THEN "ok" ELSE "err")
        /\ r.ok => E.val = r.val
        /\ EqOpts(E.o1, E.o0)
CfgOK ==
    LET r == Configure(KindOf(sams[E.s].cfg), E.o0, E.strc, OptWidth(E))
    IN  /\ E.out = (IF r.ok THEN "ok" ELSE "err")
        /\ EqOpts(E.o1, r.opts)
\* The options read before the operation are those of the construction, or
\* those last read.  (sams is the state after the operation, so the previous
\* table is found in the record.)
PrevTab ==
    LET J == {j \in 1..(pos - 1) : /\ Ev[j].op \in {"set", "get", "cfg"}
                                   /\ Ev[j].s = E.s}
        M == {j \in 1..(pos - 1) : Ev[j].op \in {"mk", "mk8", "clone"} /\ Ev[j].s = E.s}
        last == CHOOSE j \in J : \A k \in J : k <= j
    IN  IF J = {} \/ \E m \in M : m > last THEN <<>> ELSE <<Ev[last].o1>>
MadeCfg ==
    LET M == {j \in 1..(pos - 1) : Ev[j].op = "mk" /\ Ev[j].s = E.s}
        m == CHOOSE j \in M : \A k \in M : k <= j
        R == {j \in (m + 1)..(pos - 1) : Ev[j].op = "run" /\ Ev[j].s = E.s}
    IN  IF M = {} THEN <<>>
        ELSE IF Ev[m].cfg.k \in BuiltIn /\ ~(Has1(Ev[m].cfg, "how") /\ Ev[m].cfg.how \in {"default", "calls"})
                /\ (R = {} \/ Ev[m].cfg.k \notin Miro)
        THEN <<Ev[m].cfg>> ELSE <<>>
ReadsOK ==
    /\ \A i \in 1..Len(E.o0) : sams[E.s].cfg.k \in BuiltIn => E.o0[i].val.t = E.o0[i].ty
    /\ IF PrevTab # <<>>
       THEN EqButMu(PrevTab[1], E.o0)
       ELSE MadeCfg # <<>> => ReadsAs(MadeCfg[1], E.o0)
Inv_C24 ==
    /\ AtAny({"set", "get", "cfg"}) => Fine /\ ReadsOK
    /\ At("set") => SetOK
    /\ At("get") => GetOK
    /\ SamePairsHold

---------------------------------------------------------------------------
\* C25
ParseOK ==
    LET r == Parse(E.ty, E.strc)
    IN  /\ E.out = (IF r.ok THEN "ok" ELSE "err")
        /\ r.ok => E.val = r.val
Inv_C25 ==
    /\ At("cfg") => Fine /\ CfgOK
    /\ At("parse") => Fine /\ ParseOK

---------------------------------------------------------------------------
\* C26
SlotsOK ==
    LET m == slots[E.b]
        L == E.slots
    IN  /\ Len(m) = Len(L)
        /\ \A i \in 1..Len(m) :
              /\ L[i].name = m[i].name
              /\ L[i].ty = m[i].ty
              /\ Len(L[i].sams) = Len(m[i].sams)
              /\ \A j \in 1..Len(m[i].sams) : EqOpts(L[i].sams[j].opts, m[i].sams[j].opts)
SpyKinds == {"spy", "hspy"} \cup HookKinds
SpyRuns == SelectSeq(E.steps, LAMBDA x : x.op = "spyrun")
BuiltRunOK ==
    LET fin == SelectSeq(sams[E.s].cfg.fin, LAMBDA x : x.kind \in SpyKinds)
    IN  /\ E.out = "ok"
        /\ Len(SpyRuns) = Len(fin)
        /\ \A i \in 1..Len(fin) : /\ SpyRuns[i].id = fin[i].id
                                  /\ EqOpts(SpyRuns[i].opts, fin[i].opts)
PlainFin(fin) == \A i \in 1..Len(fin) : fin[i].kind \in SpyKinds \cup {"topk", "temp"}
\* what the finished chain does to a list: its temperatures and top-k's, in order
BuiltEffectOK(o) ==
    LET fin == o.cfg.fin
        val(f, key) == f.opts[CHOOSE i \in 1..Len(f.opts) : f.opts[i].key = Ch(key)].val
        go(ls, f) ==
            CASE f.kind = "topk" ->
                    LET n == IMin(Len(ls), IMax(IntOf(val(f, "k").d), IntOf(val(f, "min_keep").d)))
                    IN  SubSeq(FSortDesc(ls), 1, n)
              [] f.kind = "temp" ->
                    LET t == val(f, "temperature").v
                    IN  IF REq(t, R0) THEN ls
                        ELSE [i \in 1..Len(ls) |-> ToF32(RDiv(R32(ls[i]), t))]
              [] OTHER -> ls
        want == FSortDesc(FoldLeft(go, Logits(o.pre), fin))
        got == FSortDesc(Logits(o.post))
    IN  /\ Len(want) = Len(got)
        /\ \A i \in 1..Len(want) : RoundOK(got[i], R32(want[i]), RAbs(R32(want[i])))
Inv_C26 ==
    /\ AtAny({"b_new", "b_push", "b_cfg", "b_ensure"}) =>
          /\ Fine
          /\ SlotsOK
    /\ At("b_cfg") => E.out = (IF was.ok THEN "ok" ELSE "err")
    /\ (At("run") /\ sams[E.s].cfg.k = "built" /\ PlainFin(sams[E.s].cfg.fin)) =>
          BuiltRunOK /\ (obs # <<>> => BuiltEffectOK(obs[Len(obs)]))
    /\ SamePairsHold

---------------------------------------------------------------------------
\* C27
FirstNaN(v) == LET I == {i \in 1..Len(v) : FIsNaN(v[i])}
               IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Vals(e) == TLCEval([i \in 1..Len(e) |-> e[i][2]])
NewOK ==
    LET f == FirstNaN(E.v)
    IN  IF f # 0 THEN E.out = "err" /\ E.at = f - 1
        ELSE /\ E.out = "ok" /\ ~E.so /\ ~E.sm
             /\ Len(E.post) = Len(E.v)
             /\ \A i \in 1..Len(E.v) : E.post[i][1] = i - 1 /\ E.post[i][2] = E.v[i]
NewTopOK ==
    LET fin == SelectSeq(TLCEval([i \in 1..Len(E.v) |-> <<i - 1, E.v[i], 0>>]),
                         LAMBDA x : FIsFinite(x[2]))
    IN  /\ E.out = "ok"
        /\ Len(E.post) = IMin(E.n, Len(fin))
        /\ Distinct(E.post)
        /\ Descending(E.post)
        /\ TopSet(E.post, fin)
        /\ ~E.sm
Inv_C27 == /\ At("new") => NewOK
           /\ At("newk") => NewTopOK

---------------------------------------------------------------------------
Inv_C28 == /\ pos > 0 => E.out \in {"ok", "err"}
           /\ AllObs(P28)
           /\ At("share") => E.lost = 0

---------------------------------------------------------------------------
\* C29
SpyIds(cfg) ==
    LET lv == IF cfg.k = "built" THEN cfg.fin ELSE Leaves(sams, cfg)
        kind(x) == IF "kind" \in DOMAIN x THEN x.kind ELSE x.k
    IN  SelectSeq([i \in 1..Len(lv) |-> IF kind(lv[i]) \in SpyKinds THEN lv[i].id ELSE ""],
                  LAMBDA x : x # "")
HookOK ==
    LET ids == SpyIds(sams[E.s].cfg)
        hk == E.hooks
    IN  /\ Len(hk) = Len(ids)
        /\ \A i \in 1..Len(ids) : /\ hk[i].op = "hook"
                                  /\ hk[i].id = ids[i]
                                  /\ hk[i].ok = E.hh
                                  /\ hk[i].calls = IF E.hh THEN 1 ELSE 0
        /\ E.hh => E.hist = was.hist \o [i \in 1..Len(ids) |-> hk[i].n]
        /\ E.tok = sams[E.s].tok
Inv_C29 == /\ At("hook") => Fine /\ HookOK
           \* also while other threads run the sampler
           /\ (At("share") /\ E.cfg.k = "probe") => HooksOK(TV)

---------------------------------------------------------------------------
\* C30
CloneOK == At("clone") => LET s == sams[E.from]
                          IN  E.tok = s.tok /\ E.hasmu = s.hasmu /\ E.mu = s.mu
Inv_C30 ==
    /\ SamePairsHold
    /\ CloneOK
    /\ At("many") => Len(E.outs) = 1
    /\ Has1(Traces[sc], "ev2") =>
          /\ Len(Ev) = Len(Traces[sc].ev2)
          /\ pos > 0 => SameOutcome(E, Traces[sc].ev2[pos])

---------------------------------------------------------------------------
\* C31
SameTable(md, acc) ==
    /\ Len(md) = Len(acc)
    /\ \A i \in 1..Len(md) : /\ acc[i].key = md[i].key
                             /\ acc[i].mty = md[i].ty
                             /\ acc[i].ty = md[i].ty
DescribedOK ==
    /\ SameTable(E.opts, E.rd)
    /\ SameTable(E.opts, E.wr)
    /\ \A i, j \in 1..Len(E.opts) : i # j => E.opts[i].key # E.opts[j].key
    /\ \A j \in 1..(pos - 1) :
          Ev[j].op = "md" =>
             IF sams[Ev[j].s].cfg.k = sams[E.s].cfg.k
             THEN Ev[j].name = E.name /\ Ev[j].opts = E.opts
             ELSE Ev[j].name # E.name
Inv_C31 ==
    /\ At("md") => Fine /\ DescribedOK
    /\ (At("set") /\ Has1(E, "adv")) => E.out = "ok"   \* an advertised option is accepted

---------------------------------------------------------------------------
\* C32
BuilderCalls ==
    LET i == SlotNamed(was.slots, E.name)
        s == was.slots[i]
        on == IF s.ty = "single" /\ s.sams # <<>> THEN s.sams[1] ELSE s.fac
    IN  IF i = 0 THEN {<<>>}
        ELSE IF s.ty = "static" \/ on.kind \notin HookKinds THEN {<<>>}
        ELSE CfgCalls(on.kind, on.opts, E.strc, 64)
Inv_C32 ==
    /\ AtAny({"set", "get", "cfg"}) =>
          LET me == sams[E.s].cfg
              hooked == me.k = "hspy"
          IN  /\ Fine /\ ReadsOK
              /\ At("set") => SetOK /\ CallsFit(E.calls, IF hooked THEN SetCalls(KindOf(me), E.o0, E.keyc, E.val, 64)
                                                          ELSE {<<>>})
              /\ At("cfg") => CfgOK /\ CallsFit(E.calls, IF hooked THEN CfgCalls(KindOf(me), E.o0, E.strc, 64)
                                                          ELSE {<<>>})
              /\ At("get") => GetOK /\ E.calls = <<>>
    /\ At("b_cfg") => /\ Fine /\ SlotsOK
                      /\ E.out = (IF was.ok THEN "ok" ELSE "err")
                      /\ CallsFit(E.calls, BuilderCalls)

\* what to show of a state that breaks a property
Where == [sc |-> sc, pos |-> pos]
---------------------------------------------------------------------------
\* C33: the settings a sampler was made with
MadeTab ==
    LET M == {j \in 1..(pos - 1) : Ev[j].op \in {"mk", "clone"} /\ Ev[j].s = E.s}
        m == CHOOSE j \in M : \A k \in M : k <= j
        c == Ev[m].cfg
        R == {j \in (m + 1)..(pos - 1) : Ev[j].op = "run" /\ Ev[j].s = E.s}
    IN  IF M = {} THEN <<>>
        ELSE IF Ev[m].op # "mk" \/ ~Has1(c, "calls") \/ R # {} THEN <<>>
        ELSE <<MakeTab(c)>>
Inv_C33 ==
    /\ AtAny({"set", "get", "cfg"}) =>
          /\ Fine
          /\ (PrevTab = <<>> /\ MadeTab # <<>>) => EqOpts(E.o0, MadeTab[1])
    /\ At("get") => EqOpts(E.o1, E.o0)
    /\ SamePairsHold

---------------------------------------------------------------------------
\* C34: errors
NoWhy == E.out = "ok" /\ E.why = <<>>
Told(w) == IF w = <<>> THEN NoWhy ELSE E.out = "err" /\ WhyFits(E.why, w)
\* what samplers of the user's own raised in this run, and what came back
Raised == SelectSeq(SpyRuns, LAMBDA x : x.raise # "")
RaisedOK ==
    LET n == Len(SpyRuns)
    IN  /\ Len(Raised) <= 1
        /\ Raised # <<>> => /\ SpyRuns[n].raise # ""
                            /\ E.out = "err"
                            /\ E.raw = SpyRuns[n].raise
        /\ (Raised = <<>> /\ n > 0 /\ Has1(Tag, "spies")) => E.out = "ok"
\* what resources of the user's own raised
SickOf(r) == LET M == {j \in 1..(pos - 1) : Ev[j].op = "res" /\ Ev[j].r = r}
             IN  IF M = {} THEN "" ELSE Ev[CHOOSE j \in M : \A k \in M : k <= j].sick
AsksRes(o) == Kind(o) \in {"rand", "miro1", "miro2"} /\ Regular(o.pre) /\ o.pre # <<>>
SickOK == LET x == IF Has1(E, "r") THEN SickOf(E.r) ELSE ""
              o == obs[Len(obs)]
          IN  x # "" => /\ (E.out = "err" /\ Raised = <<>>) => E.raw = x
                        /\ AsksRes(o) => E.out = "err"
ConvOK ==
    LET want == CASE E.what \in {"logit", "nan"} -> "logit" [] E.what \in {"any", "internal"} -> "internal"
                  [] E.what \in {"anyctx", "ctx"} -> "internal" [] E.what = "intr" -> "tokens" [] OTHER -> E.what
    IN  /\ E.kind = want
        /\ IF E.what \in {"anyctx", "ctx"} THEN Mentions(E.n, E.argc) ELSE E.n = E.argc
        /\ Mentions(E.txt, IF E.what = "intr" THEN <<>> ELSE E.argc)
        /\ \A i \in 1..Len(E.parts) : Mentions(E.txt, E.parts[i])
Inv_C34 ==
    /\ At("set") => Told(SetWhy(KindOf(sams[E.s].cfg), E.o0, E.keyc, E.val, OptWidth(E)))
    /\ At("get") => Told(GetWhy(E.o0, E.keyc))
    /\ At("cfg") => Told(ConfigureWhy(KindOf(sams[E.s].cfg), E.o0, E.strc, OptWidth(E)))
    /\ At("b_cfg") => Told(SlotWhy(was.slots, E.name, E.namec, E.strc))
    /\ AtAny({"run", "seq"}) => Fine /\ RaisedOK /\ SickOK
    /\ At("conv") => Fine /\ ConvOK

---------------------------------------------------------------------------
\* C35: between two looks at everything there is, what the operations between
\* them are not for is as it was
RECURSIVE Under(_)
Under(cfg) ==
    IF Has1(cfg, "ref") THEN {cfg.ref} \cup Under(sams[cfg.ref].cfg)
    ELSE IF cfg.k = "chain" THEN UNION {Under(cfg.mem[i]) : i \in 1..Len(cfg.mem)} ELSE {}
Within(n) == {n} \cup Under(sams[n].cfg)
Draw1(cfg) == IF cfg.k = "built" THEN {cfg.fin[i].kind : i \in 1..Len(cfg.fin)} ELSE KindsOf(Leaves(sams, cfg))
Runs(e) == IF e.op = "run" THEN {e.s} ELSE IF e.op = "seq" THEN {e.ss[i] : i \in 1..Len(e.ss)} ELSE {}
MayDraw(e) == \E n \in Runs(e) : Draw1(sams[n].cfg) \cap {"rand", "miro1", "miro2"} # {}
ForList(e, n) == e.op \in {"new", "newk", "raw", "cp", "sort", "soft", "run", "seq"} /\ e.l = n
ForHist(e, n) == e.op \in {"res", "push"} /\ e.r = n
ForDraws(e, n) == \/ e.op \in {"res", "peek"} /\ e.r = n
                  \/ Runs(e) # {} /\ Has1(e, "r") /\ e.r = n /\ MayDraw(e)
ForTab(e, n) == e.op \in {"mk", "clone", "set", "cfg", "b_chain"} /\ e.s = n
ForTok(e, n) == \/ e.op \in {"mk", "clone", "b_chain", "addto"} /\ e.s \in Within(n)
                \/ \E m \in Runs(e) : Within(m) \cap Within(n) # {}
ForMu(e, n) == ForTab(e, n) \/ \E m \in Runs(e) : n \in Within(m)
NoMu(tab) == SelectSeq(tab, LAMBDA o : o.key # MuKey)
FrameOK ==
    LET P == {j \in 1..(pos - 1) : Ev[j].op = "look"}
        q == CHOOSE j \in P : \A k \in P : k <= j
        p == Ev[q]
        B == (q + 1)..(pos - 1)
        Some1(F(_, _), n) == \E j \in B : F(Ev[j], n)
    IN  P = {} \/
        /\ \A n \in DOMAIN p.lists \cap DOMAIN E.lists :
              E.lists[n] = p.lists[n] \/ Some1(ForList, n)
        /\ \A n \in DOMAIN p.res \cap DOMAIN E.res :
              /\ (E.res[n].hh = p.res[n].hh /\ E.res[n].hist = p.res[n].hist) \/ Some1(ForHist, n)
              /\ E.res[n].draws = p.res[n].draws \/ Some1(ForDraws, n)
        /\ \A n \in DOMAIN p.sams \cap DOMAIN E.sams :
              LET x == E.sams[n]
                  y == p.sams[n]
              IN  /\ NoMu(x.tab) = NoMu(y.tab) \/ Some1(ForTab, n)
                  /\ x.tok = y.tok \/ Some1(ForTok, n)
                  /\ x.mu = y.mu \/ Some1(ForMu, n)
Inv_C35 == At("look") => Fine /\ FrameOK
=============================================================================
