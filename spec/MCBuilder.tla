------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Every short history of a chain builder: slots are pushed, configured    *)
(* and made present in any order.  Beside the slots (Builder.tla) the      *)
(* model keeps a log of what was created and from what, and what the slots *)
(* hold must always be what the log says.  Every history of full length is *)
(* printed, replayed on the real builder and finished into a chain.        *)
(***************************************************************************)
EXTENDS Builder, Json

CONSTANTS Size, Emit, Bug

VARIABLES slots,
          ops,     \* the history
          log,     \* per slot: the samplers created in it, in order, each
                   \* <<"init" | "cfg" | "def", strings applied>>
          good     \* whether the last operation succeeded
vars == <<slots, ops, log, good>>

Depth == IF Size = 1 THEN 3 ELSE 4
Temps == [k |-> "temp", t |-> ToF32(RQ(1, 2))]
Tops == [k |-> "topk", n |-> 4, mk |-> 1]
Spies(id) == [k |-> "spy", id |-> id, table |-> "full"]
S(x) == [kind |-> x.k, id |-> IF "id" \in DOMAIN x THEN x.id ELSE "", opts |-> OptsOf(x)]

\* slots that can be pushed
P(name, ty, fac, init) == [name |-> name, ty |-> ty, fac |-> fac, init |-> init]
Pushes ==
    {P("a", "static", Spies("f"), <<>>),
     P("b", "static", Temps, <<>>),
     P("a", "single", Spies("g"), <<>>), P("a", "single", Temps, <<>>), P("b", "single", Tops, <<Spies("i")>>),
     P("a", "chain", Spies("h"), <<>>), P("b", "chain", Tops, <<Temps, Spies("j")>>)}
     \cup IF Size = 1 THEN {} ELSE {P("b", "single", Spies("k"), <<>>), P("", "chain", Temps, <<Temps>>)}
\* strings: good and bad for each kind of sampler, some stopping half way
Strs == {<<>>, <<"k", "=", "2">>, <<"t", "=", "3">>, <<"a", "l", "=", "4">>,
         <<"a", "l", "=", "5", ":", "x", "=", "1">>, <<"k", "=", "6", ":", "k", "=", "-">>, <<"3">>,
         <<"a", "l", "p", "h", "a", "=", "7", ":", "b", "=", "t">>}

Push(p) ==
    /\ slots' = PushSlot(slots, p.name, p.ty, S(p.fac), [i \in 1..Len(p.init) |-> S(p.init[i])])
    /\ log' = Append(log, [i \in 1..Len(p.init) |-> <<S(p.init[i]), <<>>>>])
    /\ ops' = Append(ops, [op |-> "b_push", p |-> p])
    /\ good' = TRUE
Conf(name, str) ==
    LET r0 == ConfigureSlot(slots, name, str)
        r == IF Bug = "bad_stays" /\ ~r0.ok /\ SlotNamed(slots, name) # 0
                /\ slots[SlotNamed(slots, name)].ty = "chain"
             THEN [r0 EXCEPT !.slots = [slots EXCEPT ![SlotNamed(slots, name)].sams =
                                           Append(@, slots[SlotNamed(slots, name)].fac)]]
             ELSE IF Bug = "last_slot" /\ r0.ok /\ Len(slots) > 1
             THEN LET q == ConfigureSlot(Reverse(slots), name, str)
                  IN  [q EXCEPT !.slots = Reverse(@)]
             ELSE r0
        i == SlotNamed(slots, name)
    IN  /\ slots' = r.slots
        /\ good' = r.ok
        /\ log' = IF i = 0 \/ slots[i].ty = "static" THEN log
                  ELSE IF slots[i].ty = "single" /\ log[i] # <<>>
                  THEN [log EXCEPT ![i][1][2] = Append(@, str)]
                  ELSE IF r.ok THEN [log EXCEPT ![i] = Append(@, <<slots[i].fac, <<str>>>>)]
                  ELSE log
        /\ ops' = Append(ops, [op |-> "b_cfg", name |-> name, str |-> str])
Ensure(i) ==
    /\ slots' = IF Bug = "ensure_adds" THEN [slots EXCEPT ![i].sams = Append(@, slots[i].fac)]
                ELSE EnsureSlot(slots, i)
    /\ log' = IF slots[i].ty = "static" \/ log[i] # <<>> THEN log
              ELSE [log EXCEPT ![i] = <<<<slots[i].fac, <<>>>>>>]
    /\ ops' = Append(ops, [op |-> "b_ensure", i |-> i - 1])
    /\ good' = TRUE

Init == slots = <<>> /\ ops = <<>> /\ log = <<>> /\ good = TRUE
Next ==
    /\ Len(ops) < Depth
    /\ \/ \E p \in Pushes : Push(p)
       \/ \E name \in {"a", "b", "z"}, str \in Strs : ops # <<>> /\ Conf(name, str)
       \/ \E i \in 1..Len(slots) : Ensure(i)
Spec == Init /\ [][Next]_vars

TypeOK == good \in BOOLEAN
\* a sampler that went through these configuration strings, each taking effect
\* up to its first bad part
Through(s, strs) == [s EXCEPT !.opts = FoldLeft(LAMBDA o, c : Configure(s.kind, o, c, 64).opts, s.opts, strs)]
HoldsWhatWasMade ==
    /\ Len(slots) = Len(log)
    /\ \A i \in 1..Len(slots) :
          /\ Len(slots[i].sams) = Len(log[i])
          /\ \A j \in 1..Len(log[i]) : slots[i].sams[j] = Through(log[i][j][1], log[i][j][2])
          /\ Len(slots[i].sams) <= SlotCap(slots[i].ty)
          /\ slots[i].ty = "static" => slots[i].sams = <<>>
\* names, kinds and factories never change and slots stay where they are
Stable == LET pushed == SelectSeq(ops, LAMBDA o : o.op = "b_push")
          IN  /\ Len(pushed) = Len(slots)
              /\ \A i \in 1..Len(slots) : /\ slots[i].name = pushed[i].p.name
                                          /\ slots[i].ty = pushed[i].p.ty
                                          /\ slots[i].fac = S(pushed[i].p.fac)
\* the finished chain: slot by slot
InOrder == LET RECURSIVE go(_)
               go(i) == IF i > Len(slots) THEN <<>>
                        ELSE (IF slots[i].ty = "static" THEN <<slots[i].fac>> ELSE slots[i].sams) \o go(i + 1)
           IN  Finished(slots) = go(1)
Emitted == (Emit /\ Len(ops) = Depth) => PrintT("BEH " \o ToJson([ops |-> ops]))
=============================================================================
