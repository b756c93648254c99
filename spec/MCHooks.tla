-------------------------------- MODULE MCHooks --------------------------------
(***************************************************************************)
(* Settings of a sampler with hooks of its own, one call at a time: the    *)
(* sampler's set_option is entered, the key is looked up, the hook before  *)
(* sees the value, what it made of it is stored, the hook after runs; a    *)
(* configuration string does this for each of its parts.  Config.tla says  *)
(* what the whole operation does and calls; here both must agree, and what *)
(* the property says in words must hold in every state.  Every history is  *)
(* printed and replayed on the real code.                                  *)
(***************************************************************************)
EXTENDS Config, Json

CONSTANTS Size, Emit, Bug

VARIABLES kind,   \* the script of the hooks
          path,   \* the operations so far
          opts,   \* the options now
          pc,     \* "idle", or what comes next: "enter", "pre", "store", "post"
          todo,   \* what is left of the operation: <<key, text>> of a string's parts
          cur,    \* the setting under way: [key, i, given, val]
          calls,  \* the calls made during the operation
          out,    \* how the operation ended
          from    \* the options the operation started from
vars == <<kind, path, opts, pc, todo, cur, calls, out, from>>

Opts0 == OptsOf([k |-> "hspy", table |-> "full"])
Depth == IF Size = 1 THEN 1 ELSE 2

SetKeys == {AlphaKey, AlKey, AlphabetKey, BetaKey, <<"b">>, NameKey, <<"l">>, <<"x">>, <<>>, <<"a", "l", "p">>}
Vals == {UVal(<<"5">>), FVal(RQ(3, 4)), BVal(TRUE), SVal(<<"q">>)}
PartMenu == {<<"a", "l", "=", "3">>, <<"a", "l", "p", "h", "a", "=", "2">>,
             <<"a", "l", "p", "h", "a", "b", "=", "4">>, <<"b", "=", "t">>, <<"n", "a", "=", "k">>,
             <<"l", "=", "1">>, <<"a", "l", "=", "x">>, <<"x", "=", "1">>, <<"a", "l", "p", "=", "1">>}
Small == {<<"a", "l", "=", "3">>, <<"b", "=", "t">>, <<"a", "l", "p", "h", "a", "=", "2">>, <<"n", "a", "=", "k">>}
Colon(s, t) == s \o <<":">> \o t

None == [key |-> <<>>, i |-> 0, given |-> NoVal, val |-> NoVal]
Begin(how, key, val, str) ==
    /\ pc = "idle" /\ Len(path) < Depth
    /\ path' = Append(path, [how |-> how, key |-> key, val |-> val, str |-> str])
    /\ calls' = <<>> /\ out' = "" /\ from' = opts
    /\ UNCHANGED <<kind, opts>>
\* the operation ends
Done(o) == out' = o /\ pc' = "idle" /\ todo' = <<>> /\ cur' = None

StartSet(key, val) ==
    /\ Begin("set", key, val, <<>>)
    /\ todo' = <<>> /\ pc' = "enter" /\ cur' = [None EXCEPT !.key = key, !.given = val]
StartCfg(str) ==
    /\ Begin("cfg", <<>>, NoVal, str)
    /\ todo' = Parts(str) /\ pc' = "next" /\ cur' = None
\* the next part of a configuration string, in terms of set_option
NextPart ==
    /\ pc = "next"
    /\ UNCHANGED <<kind, path, opts, calls, from>>
    /\ IF todo = <<>> THEN Done("ok")
       ELSE LET kv == KeyValue(todo[1])
                i == Resolve(Keys(opts), Trim(kv[1]))
                v == IF i < 1 THEN Bad ELSE Parse(opts[i].ty, kv[2])
            IN  IF ~v.ok \/ (i >= 1 /\ opts[i].val.t = "none") THEN Done("err")
                ELSE /\ cur' = [None EXCEPT !.key = opts[i].key, !.given = v.val]
                     /\ todo' = Tail(todo) /\ pc' = "enter" /\ UNCHANGED out
Enter ==
    /\ pc = "enter"
    /\ calls' = Append(calls, Call("own", cur.key, "", cur.given, opts))
    /\ UNCHANGED <<kind, path, opts, from>>
    /\ LET i == Resolve(Keys(opts), cur.key)
       IN  IF i < 1 THEN Done("err")
           ELSE IF opts[i].val.t = "none" THEN Done("err")
           ELSE /\ cur' = [cur EXCEPT !.i = i, !.val = cur.given]
                /\ pc' = IF Bug = "typed" /\ cur.given.t # opts[i].ty THEN "store" ELSE "pre"
                /\ UNCHANGED <<todo, out>>
Pre ==
    /\ pc = "pre"
    /\ calls' = Append(calls, Call("pre", opts[cur.i].key, opts[cur.i].ty, cur.given, opts))
    /\ UNCHANGED <<kind, path, opts, from>>
    /\ LET b == BeforeSet(kind, opts[cur.i], cur.given)
       IN  IF ~b.ok /\ Bug # "no_veto" THEN Done("err")
           ELSE /\ cur' = [cur EXCEPT !.val = IF Bug = "kept" \/ ~b.ok THEN cur.given ELSE b.val]
                /\ pc' = "store" /\ UNCHANGED <<todo, out>>
Store ==
    /\ pc = "store"
    /\ UNCHANGED <<kind, path, from, calls>>
    /\ LET o == opts[cur.i]
           st == IF cur.val.t = o.ty THEN Stored(o.ty, cur.val, 64) ELSE Bad
       IN  IF ~st.ok
           THEN /\ UNCHANGED opts
                /\ IF Bug = "always_after" THEN pc' = "post" /\ UNCHANGED <<todo, out, cur>> ELSE Done("err")
           ELSE /\ opts' = [opts EXCEPT ![cur.i].val = st.val]
                /\ IF Bug = "only_once" /\ \E j \in 1..Len(calls) : calls[j].c = "post"
                   THEN pc' = "next" /\ UNCHANGED <<todo, out, cur>>
                   ELSE pc' = "post" /\ UNCHANGED <<todo, out, cur>>
Post ==
    /\ pc = "post"
    /\ calls' = Append(calls, Call("post", opts[cur.i].key, opts[cur.i].ty, NoVal, opts))
    /\ opts' = Derived(kind, opts, cur.i)
    /\ UNCHANGED <<kind, path, from>>
    /\ IF FailsAfter(kind, opts[cur.i]) /\ Bug # "deaf" THEN Done("err")
       ELSE pc' = "next" /\ UNCHANGED <<todo, out, cur>>

Init == /\ kind \in HookKinds
        /\ path = <<>> /\ opts = Opts0 /\ pc = "idle" /\ todo = <<>> /\ cur = None
        /\ calls = <<>> /\ out = "" /\ from = Opts0
Next ==
    \/ \E key \in SetKeys, val \in Vals : Len(path) = 0 /\ StartSet(key, val)
    \/ \E key \in {AlphaKey, AlKey, <<"b">>, NameKey}, val \in Vals : Len(path) > 0 /\ StartSet(key, val)
    \/ \E p \in PartMenu : Len(path) = 0 /\ StartCfg(p)
    \/ \E p \in Small : Len(path) > 0 /\ StartCfg(p)
    \/ \E p \in PartMenu, q \in PartMenu : Len(path) = 0 /\ StartCfg(Colon(p, q))
    \/ \E p \in Small, q \in Small, r \in Small : Size > 1 /\ Len(path) = 0 /\ StartCfg(Colon(p, Colon(q, r)))
    \/ NextPart \/ Enter \/ Pre \/ Store \/ Post
Spec == Init /\ [][Next]_vars

TypeOK == pc \in {"idle", "next", "enter", "pre", "store", "post"} /\ out \in {"", "ok", "err"}
Ended == pc = "idle" /\ path # <<>>
Latest == path[Len(path)]
\* the whole operation as Config says
Agree ==
    Ended =>
        LET r == IF Latest.how = "set" THEN SetOption(kind, from, Latest.key, Latest.val, 64)
                 ELSE Configure(kind, from, Latest.str, 64)
        IN  /\ r.ok <=> out = "ok"
            /\ r.opts = opts
            /\ CallsFit(calls, IF Latest.how = "set" THEN SetCalls(kind, from, Latest.key, Latest.val, 64)
                               ELSE CfgCalls(kind, from, Latest.str, 64))
\* in words: each hook once per setting, the one before first; what it refused,
\* and anything else that fails before the hook after, leaves no trace
Is(j, c) == calls[j].c = c
InTurn ==
    \A j \in 1..Len(calls) :
        /\ Is(j, "pre") => j > 1 /\ Is(j - 1, "own") /\ calls[j].opts = calls[j - 1].opts
                           /\ calls[j].val = calls[j - 1].val
        /\ Is(j, "post") => j > 1 /\ Is(j - 1, "pre") /\ calls[j].key = calls[j - 1].key
        /\ (Is(j, "own") /\ j > 1) => Is(j - 1, "post")
        /\ j = 1 => Is(j, "own")
NoTrace ==
    (Ended /\ out = "err" /\ calls # <<>> /\ ~Is(Len(calls), "post")) => opts = calls[Len(calls)].opts
Refused == \A j \in 1..(Len(calls) - 1) :
               Is(j, "pre") => ~(kind = "hveto" /\ calls[j].key \in {AlphaKey, BetaKey})
Emitted == (Emit /\ Ended /\ Len(path) = Depth) =>
               PrintT("BEH " \o ToJson([kind |-> kind, path |-> path]))
=============================================================================
