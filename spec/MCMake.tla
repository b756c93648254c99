-------------------------------- MODULE MCMake ---------------------------------
(***************************************************************************)
(* Making a sampler: by default or by its constructor, whose arguments are *)
(* taken in one at a time, and then one builder method after another.      *)
(* Config.tla says what settings the sampler ends up with (MakeTab); the   *)
(* steps here must agree, and what the property says in words must hold    *)
(* in every state.  Every history is printed and replayed.                 *)
(***************************************************************************)
EXTENDS Config, Json

CONSTANTS Size, Emit, Bug

VARIABLES kind,   \* the kind of sampler
          from,   \* "default" or "new"
          args,   \* the arguments of the constructor, as far as taken in
          calls,  \* the builder methods called
          opts    \* the settings now
vars == <<kind, from, args, calls, opts>>

Kinds == {"topk", "topp", "minp", "topa", "loctyp", "tailfree", "temp", "rep", "freq", "seqrep", "miro1", "miro2"}
TypeAt(k, key) == LET tab == OptTable(k) IN tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = key][2]
\* the arguments all differ
ArgVal(k, i) == IF TypeAt(k, NewKeys(k)[i]) = "u" THEN UVal(DigitsOf(20 + i)) ELSE FVal(RQ(2 * i + 1, 4))
CallVals(k, key) ==
    IF TypeAt(k, key) = "u"
    THEN {UVal(<<"7">>)} \cup (IF Size > 1 THEN {UVal(<<"0">>), UVal(U64Max)} ELSE {UVal(<<"0">>)})
    ELSE {FVal(RQ(5, 8))} \cup (IF Size > 1 THEN {FVal(RQ(-3, 2)), FVal(RQ(1, 10))} ELSE {FVal(RQ(-3, 2))})
CallKeys(k) == {OptTable(k)[i][1] : i \in 1..Len(OptTable(k))}
Depth == IF Len(OptTable(kind)) <= 3 THEN 1 + Size ELSE 2

MuAt(os) == IndexOf(os, "mu")
Twice(v) == FVal(R32(ToF32(RMul(RInt(2), R32(ToF32(v.v))))))
Kept(v) == IF v.t = "f" THEN FVal(R32(ToF32(v.v))) ELSE v
\* one setting is given a value; the target of tau moves mu as well
Give(os, key, v, how) ==
    LET i == IndexOf(os, key)
        o1 == [os EXCEPT ![i].val = Kept(v)]
        o2 == IF kind \in {"miro1", "miro2"} /\ key = "tau" /\ ~(Bug = "make_stale" /\ how = "call")
              THEN [o1 EXCEPT ![MuAt(os)].val = Twice(v)] ELSE o1
    IN  IF Bug = "make_clears" /\ how = "call" /\ key = "min_keep" THEN [o2 EXCEPT ![1].val = DefaultTab(kind)[1].val]
        ELSE IF Bug = "make_first" /\ how = "call" /\ \E j \in 1..Len(calls) : calls[j].key = key THEN os
        ELSE o2

Init == /\ kind \in Kinds /\ from \in {"default", "new"}
        /\ args = <<>> /\ calls = <<>> /\ opts = DefaultTab(kind)
Made == from = "default" \/ Len(args) = Len(NewKeys(kind))
TakeArg ==
    /\ ~Made
    /\ LET ks == NewKeys(kind)
           i == Len(args) + 1
           v == ArgVal(kind, i)
           \* the mistake: a constructor that mixes up its last two arguments
           to == IF Bug = "make_swap" /\ Len(ks) = i /\ i > 1 /\ TypeAt(kind, ks[i]) = TypeAt(kind, ks[i - 1])
                 THEN ks[i - 1] ELSE ks[i]
       IN  /\ args' = Append(args, [key |-> ks[i], val |-> v])
           /\ opts' = Give(opts, to, v, "arg")
    /\ UNCHANGED <<kind, from, calls>>
CallMethod(key, v) ==
    /\ Made /\ Len(calls) < Depth
    /\ calls' = Append(calls, [key |-> key, val |-> v])
    /\ opts' = Give(opts, key, v, "call")
    /\ UNCHANGED <<kind, from, args>>
Next == \/ TakeArg
        \/ \E key \in CallKeys(kind) : \E v \in CallVals(kind, key) : CallMethod(key, v)
Spec == Init /\ [][Next]_vars

\* what was given, in order
Given == args \o calls
TypeOK == /\ Len(opts) = Len(OptTable(kind))
          /\ \A i \in 1..Len(opts) : opts[i].val.t = opts[i].ty
Agree == opts = MakeTab([k |-> kind, args |-> args, calls |-> calls])
\* in words: every setting is what was last given for it, or its default;
\* mu alone follows tau
LastOf(keys) ==
    LET J == {j \in 1..Len(Given) : Given[j].key \in keys}
    IN  IF J = {} THEN 0 ELSE CHOOSE j \in J : \A x \in J : x <= j
LastGiven ==
    \A i \in 1..Len(opts) :
        LET key == OptTable(kind)[i][1]
            j == LastOf(IF key = "mu" THEN {"mu", "tau"} ELSE {key})
        IN  IF j = 0 THEN opts[i] = DefaultTab(kind)[i]
            ELSE IF Given[j].key = key THEN opts[i].val = Kept(Given[j].val)
            ELSE opts[i].val = Twice(Given[j].val)
\* the order of methods for different settings does not matter, tau and mu apart
NoOrder ==
    (Len(calls) >= 2 /\ LET n == Len(calls)
                            a == calls[n - 1].key
                            b == calls[n].key
                        IN  a # b /\ {a, b} # {"tau", "mu"}) =>
        LET n == Len(calls)
            c2 == [calls EXCEPT ![n - 1] = calls[n], ![n] = calls[n - 1]]
        IN  opts = MakeTab([k |-> kind, args |-> args, calls |-> c2])
Emitted ==
    Emit /\ Made =>
        PrintT("BEH " \o ToJson([kind |-> kind, from |-> from, args |-> args, calls |-> calls]))
=============================================================================
