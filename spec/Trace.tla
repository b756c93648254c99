-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  Each recorded execution of the real crate (a line of *)
(* trace.ndjson) is one behaviour of this specification: the state holds   *)
(* what the recorded operations have built so far (candidate lists,        *)
(* resources, samplers, builder slots), every step consumes one recorded   *)
(* operation, and the properties are invariants over the state and the     *)
(* observations made of the operation just consumed.                       *)
(***************************************************************************)
EXTENDS SamplerProps, Builder, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES
    sc,     \* which recorded execution
    pos,    \* operations consumed
    lists,  \* name -> [e, so, sm, last, ban, sane]
    res,    \* name -> [rng, hh, hist]
    sams,   \* name -> [cfg, mu, hasmu, tok, tab]
    slots,  \* name -> slots of a builder
    obs,    \* what the operation just consumed did to lists: observations
    was     \* what else held just before it: [hist, hh, rng] of its resource, [ok] of
            \* the builder step it should be, [slots] of its builder
vars == <<sc, pos, lists, res, sams, slots, obs, was>>

Ev == Traces[sc].ev
E == Ev[pos]
Tag == Traces[sc].tag
Has1(r, f) == f \in DOMAIN r
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

NoList == [e |-> <<>>, so |-> FALSE, sm |-> FALSE, last |-> "new", ban |-> {}, sane |-> TRUE]
NoRes == [rng |-> FALSE, hh |-> FALSE, hist |-> <<>>]
NoSam == [cfg |-> [k |-> "none"], mu |-> 0, hasmu |-> FALSE, tok |-> <<>>, tab |-> <<>>]

Init ==
    /\ sc \in 1..Len(Traces)
    /\ pos = 0
    /\ lists = <<>> /\ res = <<>> /\ sams = <<>> /\ slots = <<>>
    /\ obs = <<>>
    /\ was = [hist |-> <<>>, hh |-> FALSE, rng |-> FALSE, ok |-> TRUE, slots |-> <<>>]

---------------------------------------------------------------------------
\* the built-in samplers a configuration consists of, in order
RECURSIVE Leaves(_, _)
Leaves(S, cfg) ==
    IF Has1(cfg, "ref") THEN Leaves(S, S[cfg.ref].cfg)
    ELSE IF cfg.k = "sref" THEN Leaves(S, S[cfg.s].cfg)
    ELSE IF cfg.k = "chain" THEN FoldLeft(LAMBDA a, m : a \o Leaves(S, m), <<>>, cfg.mem)
    ELSE <<cfg>>
KindsOf(lv) == {lv[i].k : i \in 1..Len(lv)}

\* settings under which a token at -infinity stays there
FiniteNonNeg(x) == FIsFinite(x) /\ FLe(FZero, x)
SaneCfg(c) ==
    CASE c.k \in Filters -> c.mk >= 1
      [] c.k = "temp" -> FiniteNonNeg(c.t)
      [] c.k = "rep" -> FiniteNonNeg(c.pen)
      [] c.k = "freq" -> FiniteNonNeg(c.f) /\ FiniteNonNeg(c.p)
      [] c.k = "seqrep" -> FiniteNonNeg(c.f) /\ FiniteNonNeg(c.s)
      [] c.k = "flat" -> \A i \in 1..Len(c.b) : FIsFinite(c.b[i][2]) \/ c.b[i][2] = FNegInf
      [] c.k = "miro1" -> c.m > 0 /\ c.nv > 0
      [] c.k \in {"miro2", "greedy", "rand"} -> TRUE
      [] OTHER -> FALSE
Bans(lv) ==
    LET F == {i \in 1..Len(lv) : lv[i].k = "flat"}
    IN  UNION {{t \in {lv[i].b[j][1] : j \in 1..Len(lv[i].b)} :
                   FirstBias(lv[i].b, t) = <<FNegInf>>} : i \in F}

---------------------------------------------------------------------------
\* Observations.  acc = [sams, obs]
MemberObs(acc, st, r, L) ==
    LET me == acc.sams[st.s]
        o == [cfg |-> me.cfg, kinds |-> KindsOf(Leaves(acc.sams, me.cfg)),
              pre |-> st.pre, preso |-> st.preso, presm |-> st.presm,
              post |-> st.post, so |-> st.so, sm |-> st.sm,
              out |-> st.out, err |-> st.err, ret |-> st.ret, tok |-> st.tok,
              mu0 |-> me.mu, mu |-> st.mu, hasmu |-> st.hasmu,
              h |-> r.hist, hh |-> r.hh, hist |-> r.hist, rng |-> r.rng,
              m |-> st.m, last |-> acc.last, ban |-> L.ban, sane |-> FALSE]
    IN  [sams |-> [acc.sams EXCEPT ![st.s].mu = st.mu, ![st.s].tok = st.tok],
         obs |-> Append(acc.obs, o),
         last |-> me.cfg.k]
Steps(e, r, L) ==
    FoldLeft(LAMBDA a, st : IF st.op = "member" THEN MemberObs(a, st, r, L) ELSE a,
             [sams |-> sams, obs |-> <<>>, last |-> L.last], e.steps)

RunNext(e) ==
    LET L == lists[e.l]
        r == IF Has1(e, "r") THEN res[e.r] ELSE NoRes
        ms == Steps(e, r, L)
        S1 == ms.sams
        cfg == IF e.op = "seq" THEN [k |-> "seq", mem |-> e.ss] ELSE sams[e.s].cfg
        lv == IF e.op = "seq"
              THEN FoldLeft(LAMBDA a, n : a \o Leaves(sams, sams[n].cfg), <<>>, e.ss)
              ELSE Leaves(sams, cfg)
        ban == L.ban \cup (Bans(lv) \cap Tokens(L.e))
        sane == L.sane /\ \A i \in 1..Len(lv) : SaneCfg(lv[i])
        o == [cfg |-> cfg, kinds |-> KindsOf(lv),
              pre |-> L.e, preso |-> L.so, presm |-> L.sm,
              post |-> e.post, so |-> e.so, sm |-> e.sm,
              out |-> e.out, err |-> e.err, ret |-> e.ret, tok |-> e.tok,
              mu0 |-> IF e.op = "seq" THEN 0 ELSE sams[e.s].mu,
              mu |-> IF e.op = "seq" THEN 0 ELSE e.mu,
              hasmu |-> e.op # "seq" /\ e.hasmu,
              h |-> r.hist, hh |-> r.hh,
              hist |-> IF Has1(e, "r") THEN e.hist ELSE <<>>,
              rng |-> r.rng,
              m |-> IF e.op = "seq" THEN "t"
                    ELSE IF Has1(e, "m") /\ e.m \in {"s", "ls"} THEN "s" ELSE "t",
              last |-> L.last, ban |-> ban, sane |-> sane]
    IN  /\ obs' = Append(ms.obs, o)
        /\ lists' = Put(lists, e.l,
              [e |-> e.post, so |-> e.so, sm |-> e.sm,
               last |-> IF lv # <<>> /\ e.out = "ok" THEN lv[Len(lv)].k ELSE "?",
               ban |-> ban, sane |-> sane])
        /\ sams' = IF e.op = "seq" THEN S1
                   ELSE [S1 EXCEPT ![e.s].mu = e.mu, ![e.s].hasmu = e.hasmu, ![e.s].tok = e.tok]
        /\ res' = IF Has1(e, "r") THEN Put(res, e.r, [r EXCEPT !.hist = e.hist, !.hh = e.hh]) ELSE res
        /\ UNCHANGED slots

\* a sampler of its own on a copy of the list: only the observation remains
TryNext(e) ==
    LET L == lists[e.l]
        r == IF Has1(e, "r") THEN res[e.r] ELSE NoRes
        o == [cfg |-> e.cfg, kinds |-> {e.cfg.k},
              pre |-> L.e, preso |-> L.so, presm |-> L.sm,
              post |-> e.post, so |-> e.so, sm |-> e.sm,
              out |-> e.out, err |-> e.err, ret |-> e.ret, tok |-> e.tok,
              mu0 |-> e.mu0, mu |-> e.mu, hasmu |-> e.hasmu,
              h |-> r.hist, hh |-> r.hh,
              hist |-> IF Has1(e, "r") THEN e.hist ELSE <<>>,
              rng |-> r.rng,
              m |-> IF e.m \in {"s", "ls"} THEN "s" ELSE "t",
              last |-> L.last, ban |-> L.ban \cup (Bans(<<e.cfg>>) \cap Tokens(L.e)),
              sane |-> L.sane /\ SaneCfg(e.cfg)]
    IN  /\ obs' = <<o>>
        /\ UNCHANGED <<lists, res, sams, slots>>

\* the same run many times over: an observation for every outcome that occurred
ManyNext(e) ==
    LET L == lists[e.l]
        o(x) == [cfg |-> e.cfg, kinds |-> {e.cfg.k},
                 pre |-> L.e, preso |-> L.so, presm |-> L.sm,
                 post |-> x.post, so |-> x.so, sm |-> x.sm,
                 out |-> x.out, err |-> x.err, ret |-> x.ret, tok |-> x.tok,
                 mu0 |-> x.mu0, mu |-> x.mu, hasmu |-> x.hasmu,
                 h |-> e.hist, hh |-> e.hh, hist |-> x.hist,
                 rng |-> e.hr,
                 m |-> IF e.m \in {"s", "ls"} THEN "s" ELSE "t",
                 last |-> L.last, ban |-> L.ban \cup (Bans(<<e.cfg>>) \cap Tokens(L.e)),
                 sane |-> L.sane /\ SaneCfg(e.cfg)]
    IN  /\ obs' = [i \in 1..Len(e.outs) |-> o(e.outs[i])]
        /\ UNCHANGED <<lists, res, sams, slots>>

ListOpNext(e) ==
    LET L == lists[e.l]
        o == [cfg |-> [k |-> e.op], kinds |-> {e.op},
              pre |-> L.e, preso |-> L.so, presm |-> L.sm,
              post |-> e.post, so |-> e.so, sm |-> e.sm,
              out |-> e.out, err |-> e.err, ret |-> <<>>, tok |-> <<>>,
              mu0 |-> 0, mu |-> 0, hasmu |-> FALSE,
              h |-> <<>>, hh |-> FALSE, hist |-> <<>>, rng |-> FALSE, m |-> "s",
              last |-> L.last, ban |-> L.ban, sane |-> L.sane]
    IN  /\ obs' = <<o>>
        /\ lists' = Put(lists, e.l, [L EXCEPT !.e = e.post, !.so = e.so, !.sm = e.sm, !.last = e.op])
        /\ UNCHANGED <<res, sams, slots>>

NewListNext(e) ==
    /\ lists' = Put(lists, e.l, [NoList EXCEPT !.e = e.post, !.so = e.so, !.sm = e.sm])
    /\ obs' = <<>>
    /\ UNCHANGED <<res, sams, slots>>
CopyListNext(e) ==
    /\ lists' = Put(lists, e.l, lists[e.from])
    /\ obs' = <<>>
    /\ UNCHANGED <<res, sams, slots>>

ResNext(e) ==
    /\ res' = Put(res, e.r,
          [rng |-> e.hr /\ e.kind = "simple",
           hh |-> e.hh, hist |-> e.hist])
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, sams, slots>>
ResOpNext(e) ==
    /\ res' = [res EXCEPT ![e.r].hist = e.hist, ![e.r].hh = e.hh]
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, sams, slots>>

MakeNext(e) ==
    /\ sams' = Put(sams, e.s,
          [cfg |-> IF e.op = "clone" THEN sams[e.from].cfg
                   ELSE IF e.cfg.k = "sref" THEN sams[e.cfg.s].cfg ELSE e.cfg,
           mu |-> IF Has1(e, "mu") THEN e.mu ELSE 0,
           hasmu |-> Has1(e, "hasmu") /\ e.hasmu,
           tok |-> IF Has1(e, "tok") THEN e.tok ELSE <<>>,
           tab |-> IF e.op = "clone" THEN sams[e.from].tab ELSE <<>>])
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, slots>>
AddNext(e) ==
    /\ sams' = [sams EXCEPT ![e.s].cfg.mem = Append(@, e.m), ![e.s].tok = e.tok]
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, slots>>

SetNext(e) ==
    /\ sams' = [sams EXCEPT
          ![e.s].cfg = IF @.k \in BuiltIn THEN CfgFrom(@, e.o1) ELSE @,
          ![e.s].tab = e.o1,
          ![e.s].mu = IF Has1(e, "mu") THEN e.mu ELSE 0]
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, slots>>

HookNext(e) ==
    /\ res' = [res EXCEPT ![e.r].hist = e.hist, ![e.r].hh = e.hh]
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, sams, slots>>

\* the sampler a builder's factory makes, or an initial one
Built(cfg) == [kind |-> KindOf(cfg), id |-> IF Has1(cfg, "id") THEN cfg.id ELSE "",
               opts |-> OptsOf(cfg)]
BuilderStep(e) ==
    CASE e.op = "b_new" -> [ok |-> TRUE, slots |-> <<>>]
      [] e.op = "b_push" ->
            [ok |-> TRUE,
             slots |-> PushSlot(slots[e.b], e.name, e.ty, Built(e.fac),
                         IF e.ty = "static" THEN <<>>
                         ELSE [i \in 1..IMin(Len(e.init), SlotCap(e.ty)) |-> Built(e.init[i])])]
      [] e.op = "b_cfg" -> ConfigureSlot(slots[e.b], e.name, e.strc)
      [] e.op = "b_ensure" -> [ok |-> TRUE, slots |-> EnsureSlot(slots[e.b], e.i + 1)]
BuilderNext(e) ==
    /\ slots' = Put(slots, e.b, BuilderStep(e).slots)
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, sams>>
FinishNext(e) ==
    /\ sams' = Put(sams, e.s, [NoSam EXCEPT !.cfg = [k |-> "built", fin |-> Finished(slots[e.b])]])
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, slots>>

OtherNext(e) ==
    /\ obs' = <<>>
    /\ UNCHANGED <<lists, res, sams, slots>>

Next ==
    /\ pos < Len(Ev)
    /\ pos' = pos + 1
    /\ UNCHANGED sc
    /\ LET e == Ev[pos + 1]
           b == IF e.op \in {"b_new", "b_push", "b_cfg", "b_ensure"} THEN BuilderStep(e).ok ELSE TRUE
           r == IF Has1(e, "r") /\ e.r \in DOMAIN res THEN res[e.r] ELSE NoRes
       IN  was' = [hist |-> r.hist, hh |-> r.hh, rng |-> r.rng, ok |-> b,
                      slots |-> IF Has1(e, "b") /\ e.b \in DOMAIN slots THEN slots[e.b] ELSE <<>>]
    /\ LET e == Ev[pos + 1]
       IN  IF e.op \notin {"run", "seq", "try"} /\ e.out = "panic" THEN OtherNext(e)
           ELSE CASE e.op \in {"run", "seq"} -> RunNext(e)
             [] e.op = "try" -> TryNext(e)
             [] e.op = "many" -> ManyNext(e)
             [] e.op \in {"sort", "soft"} -> ListOpNext(e)
             [] e.op \in {"new", "newk", "raw"} -> NewListNext(e)
             [] e.op = "cp" -> CopyListNext(e)
             [] e.op = "res" -> ResNext(e)
             [] e.op \in {"push", "acc", "peek"} -> ResOpNext(e)
             [] e.op \in {"mk", "mk8", "clone"} -> MakeNext(e)
             [] e.op = "addto" -> AddNext(e)
             [] e.op \in {"set", "cfg", "get"} -> SetNext(e)
             [] e.op = "hook" -> HookNext(e)
             [] e.op \in {"b_new", "b_push", "b_cfg", "b_ensure"} -> BuilderNext(e)
             [] e.op = "b_chain" -> FinishNext(e)
             [] OTHER -> OtherNext(e)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
AllObs(P(_)) == \A i \in 1..Len(obs) : P(obs[i])
TopObs(P(_)) == obs # <<>> => P(obs[Len(obs)])
At(op) == pos > 0 /\ E.op = op
AtAny(S) == pos > 0 /\ E.op \in S
Fine == pos > 0 /\ E.out # "panic"
=============================================================================
