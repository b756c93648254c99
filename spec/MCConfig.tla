------------------------------- MODULE MCConfig -------------------------------
(***************************************************************************)
(* Configuration as a reader would do it: a configuration string is        *)
(* consumed piece by piece, every ":" makes the setting read so far take   *)
(* effect and the first bad one stops everything.  Config.tla says what a  *)
(* whole string means; here both must agree on every string the pieces     *)
(* spell (mode "cfg").  Mode "num" does the same for the text of values,   *)
(* with an automaton that reads numbers character by character.  Mode      *)
(* "set" applies settings one after the other and checks what each does to *)
(* the options.  Every state is printed and replayed on the real code.     *)
(***************************************************************************)
EXTENDS Config, Json

CONSTANTS Mode, Size, Emit, Bug

VARIABLES kind,   \* which sampler
          path,   \* pieces or settings so far
          str,    \* characters so far
          buf,    \* the part being read, or the automaton's state
          opts,   \* options as set so far
          st,     \* "ok", or "err" once a part was bad
          prev    \* [opts, key, val, ok]: the last setting (mode "set")
vars == <<kind, path, str, buf, opts, st, prev>>

\* settings to start from; the driver makes the sampler from these
Cfg(k) ==
    CASE k \in {"spy", "one", "hid"} -> [k |-> "spy", table |-> IF k = "spy" THEN "full" ELSE k]
      [] k = "topk" -> [k |-> k, n |-> 7, mk |-> 3]
      [] k \in {"topp", "minp", "loctyp"} -> [k |-> k, p |-> ToF32(RQ(1, 4)), mk |-> 3]
      [] k = "topa" -> [k |-> k, a1 |-> ToF32(RQ(1, 4)), a2 |-> ToF32(R1), mk |-> 3]
      [] k = "tailfree" -> [k |-> k, z |-> ToF32(RQ(1, 4)), mk |-> 3]
      [] k = "temp" -> [k |-> k, t |-> ToF32(RQ(1, 4))]
      [] k = "rep" -> [k |-> k, pen |-> ToF32(RQ(5, 4)), ln |-> 9]
      [] k = "freq" -> [k |-> k, f |-> ToF32(RQ(1, 4)), p |-> ToF32(RQ(1, 8)), ln |-> 9]
      [] k = "seqrep" -> [k |-> k, f |-> ToF32(RQ(1, 4)), s |-> ToF32(RQ(1, 8)), ml |-> 4, tol |-> 1, mm |-> 2, ln |-> 9]
      [] k = "miro1" -> [k |-> k, tau |-> ToF32(R1), eta |-> ToF32(RQ(1, 4)), m |-> 40, nv |-> 50, hmu |-> FALSE, mu |-> 0]
      [] k = "miro2" -> [k |-> k, tau |-> ToF32(R1), eta |-> ToF32(RQ(1, 4)), hmu |-> FALSE, mu |-> 0]
Opts0(k) == OptsOf(Cfg(k))

c_ == "_"
\* pieces as character sequences
Pieces(k) ==
    CASE k = "spy" -> {<<"a", "l">>, <<"a", "l", "p", "h", "a">>, <<"b", "e">>, <<"n">>, <<"l">>,
                       <<"=">>, <<":">>, <<" ">>, <<"1">>, <<"t">>, <<".", "5">>}
      [] k = "hid" -> {<<"m", "o">>, <<"d", "e">>, <<"l">>, <<"z", "e">>, <<"l", "o", "n", "g">>, <<c_, "n">>,
                       <<"=">>, <<":">>, <<"1">>, <<"t">>}
      [] k = "one" -> {<<"a", "l">>, <<"b">>, <<"=">>, <<":">>, <<" ">>, <<"1">>, <<"-", "2">>, <<"i", "n", "f">>}
      [] k = "minp" -> {<<"p">>, <<"m", "i", "n">>, <<c_, "k", "e", "e", "p">>, <<"=">>, <<":">>,
                        <<" ">>, <<"2">>, <<"0", ".", "5">>, <<"x">>}
      [] k = "miro1" -> {<<"t", "a", "u">>, <<"m">>, <<"u">>, <<"=">>, <<":">>, <<" ">>, <<"3">>, <<"-", "1">>}
      [] k = "temp" -> {<<"t", "e", "m", "p">>, <<"=">>, <<":">>, <<"\t">>, <<"2">>, <<"-">>, <<"i", "n", "f">>, <<".">>}
CfgKinds == {"spy", "hid", "one", "minp", "miro1", "temp"}
NumPieces == {<<"0">>, <<"1">>, <<"9">>, <<".">>, <<"-">>, <<"+">>, <<"e">>, <<" ">>, <<"i", "n", "f">>}
BoolPieces == {<<"t", "r", "u", "e">>, <<"t">>, <<"f", "a", "l", "s", "e">>, <<"f">>, <<"y", "e", "s">>,
               <<"n", "o">>, <<"y">>, <<"n">>, <<"1">>, <<"0">>, <<" ">>, <<"T">>, <<"o", "n">>, <<"-">>}
Depth == CASE Mode = "cfg" -> IF Size = 1 THEN 4 ELSE 5
           [] Mode = "num" -> IF Size = 1 THEN 4 ELSE 6
           [] OTHER -> 2

---------------------------------------------------------------------------
\* mode "cfg"
Commit(k, o, b) ==
    LET p == Trim(b)
    IN  IF p = <<>> THEN [ok |-> TRUE, opts |-> o] ELSE Part(k, o, p, 64)
Take(c) ==       \* one more character
    IF st = "err" THEN UNCHANGED <<buf, opts, st>>
    ELSE IF c # ":" THEN buf' = Append(buf, c) /\ UNCHANGED <<opts, st>>
    ELSE LET r == Commit(Cfg(kind).k, opts, buf)
         IN  /\ buf' = <<>>
             /\ opts' = IF Bug = "rollback" /\ ~r.ok THEN Opts0(kind) ELSE r.opts
             /\ st' = IF r.ok \/ Bug = "go_on" THEN "ok" ELSE "err"
\* a piece holding several characters holds no ":" among them
Read(p) ==
    /\ Len(path) < Depth
    /\ path' = Append(path, p) /\ str' = str \o p
    /\ IF Len(p) = 1 THEN Take(p[1])
       ELSE IF st = "err" THEN UNCHANGED <<buf, opts, st>>
       ELSE buf' = buf \o p /\ UNCHANGED <<opts, st>>
    /\ UNCHANGED <<kind, prev>>
Agree ==
    Mode = "cfg" =>
        LET whole == Configure(Cfg(kind).k, Opts0(kind), str, 64)
            last == Commit(Cfg(kind).k, opts, buf)
        IN  IF st = "err" THEN ~whole.ok /\ whole.opts = opts
            ELSE whole.ok = last.ok /\ whole.opts = last.opts

---------------------------------------------------------------------------
\* mode "num": kind is the type; buf[1] is the automaton's state
\*   S start, G after the sign, I integer digits, P point after digits,
\*   Q point without digits, D decimals, X after e, Y after its sign, Z exponent,
\*   W the word inf; E trailing blanks after something good, N no number
Sign == {"+", "-"}
Step(ty, q, c) ==
    CASE c \in WS -> IF q = "S" THEN "S" ELSE IF q \in {"I", "P", "D", "Z", "W", "E"} THEN "E" ELSE "N"
      [] q = "S" /\ c = "+" -> "G"
      [] q = "S" /\ c = "-" -> IF ty = "u" THEN "N" ELSE "G"
      [] q \in {"S", "G", "I"} /\ c \in Digit -> "I"
      [] ty = "f" /\ q = "I" /\ c = "." -> "P"
      [] ty = "f" /\ q \in {"S", "G"} /\ c = "." -> "Q"
      [] q \in {"P", "Q", "D"} /\ c \in Digit -> "D"
      [] ty = "f" /\ q \in {"I", "P", "D"} /\ c = "e" -> "X"
      [] q = "X" /\ c \in Sign -> "Y"
      [] q \in {"X", "Y", "Z"} /\ c \in Digit -> "Z"
      [] OTHER -> "N"
Num(p) ==
    /\ Len(path) < Depth
    /\ path' = Append(path, p) /\ str' = str \o p
    /\ buf' = <<IF p = <<"i", "n", "f">>
                THEN IF kind = "f" /\ buf[1] \in {"S", "G"} THEN "W" ELSE "N"
                ELSE Step(kind, buf[1], p[1])>>
    /\ UNCHANGED <<kind, opts, st, prev>>
NumAgree ==
    (Mode = "num" /\ kind # "b") =>
        (Parse(kind, str).ok <=> buf[1] \in {"I", "P", "D", "Z", "W", "E"})
Word(p) ==
    /\ Len(path) < 3
    /\ path' = Append(path, p) /\ str' = str \o p
    /\ UNCHANGED <<kind, buf, opts, st, prev>>
WordAgree == (Mode = "num" /\ kind = "b") =>
                 LET r == Parse("b", str)
                 IN  r.ok => r.val = BVal(Trim(str)[1] \in {"t", "y", "1"})

---------------------------------------------------------------------------
\* mode "set"
SetKinds == {"spy", "hid", "topk", "topp", "minp", "topa", "loctyp", "tailfree", "temp", "rep", "freq", "seqrep",
             "miro1", "miro2"}
Names(k) == {Opts0(k)[i].key : i \in 1..Len(Opts0(k))}
KeysFor(k) == {<<"x">>} \cup UNION {{SubSeq(n, 1, j) : j \in 0..Len(n)} : n \in Names(k)}
              \cup {Append(n, "x") : n \in Names(k)} \cup {Tail(n) : n \in Names(k)}
Vals == {UVal(<<"5">>), FVal(RQ(3, 4)), BVal(TRUE), SVal(<<"q">>)}
Natural(ty) == {v \in Vals : v.t = ty}
DoSet(key, v) ==
    LET r == SetOption(Cfg(kind).k, opts, key, v, 64)
        r1 == IF Bug = "longest" /\ ~r.ok
              THEN LET P == {i \in 1..Len(opts) : IsPrefix(key, opts[i].key)}
                   IN  IF P = {} THEN r ELSE SetAt(Cfg(kind).k, opts, CHOOSE i \in P : TRUE, v, 64)
              ELSE IF Bug = "no_mu" THEN [r EXCEPT !.opts = [i \in 1..Len(opts) |->
                                              IF opts[i].key = MuKey /\ key # MuKey THEN opts[i] ELSE r.opts[i]]]
              ELSE r
    IN  /\ opts' = r1.opts
        /\ prev' = [opts |-> opts, key |-> key, val |-> v, ok |-> r1.ok]
        /\ path' = Append(path, [key |-> key, val |-> v])
        /\ UNCHANGED <<kind, str, buf, st>>
SetStep ==
    \/ /\ path = <<>>
       /\ \E i \in 1..Len(opts) : \E v \in Natural(opts[i].ty) : DoSet(opts[i].key, v)
    \/ /\ Len(path) < Depth
       /\ Len(path) = 1 \/ Size > 1
       /\ \E key \in KeysFor(kind), v \in Vals : DoSet(key, v)
\* what a setting may and must do, said without the machinery of Config
Matches(o, key) == {i \in 1..Len(o) : IsPrefix(key, o[i].key)}
Meant(o, key) == {i \in 1..Len(o) : o[i].key = key \/ Matches(o, key) = {i}}
SetRight ==
    (Mode = "set" /\ path # <<>>) =>
        LET o == prev.opts
            I == Meant(o, prev.key)
            exact == {i \in I : o[i].key = prev.key}
            j == CHOOSE i \in IF exact # {} THEN exact ELSE I : TRUE
            right == I # {} /\ o[j].ty = prev.val.t /\ o[j].val.t # "none"
        IN  /\ prev.ok = right
            /\ ~right => opts = o
            /\ right =>
                  /\ GetOption(opts, o[j].key) = Good(prev.val)
                  /\ \A i \in (1..Len(o)) \ {j} :
                        IF o[j].key = TauKey /\ o[i].key = MuKey
                        THEN opts[i].val = FVal(RMul(RInt(2), prev.val.v))
                        ELSE opts[i] = o[i]
---------------------------------------------------------------------------
Init ==
    /\ kind \in (CASE Mode = "cfg" -> CfgKinds [] Mode = "num" -> {"u", "f", "b"} [] OTHER -> SetKinds)
    /\ path = <<>> /\ str = <<>>
    /\ buf = IF Mode = "num" THEN <<"S">> ELSE <<>>
    /\ opts = IF Mode = "num" THEN <<>> ELSE Opts0(kind)
    /\ st = "ok" /\ prev = <<>>
Next == CASE Mode = "cfg" -> \E p \in Pieces(kind) : Read(p)
          [] Mode = "num" -> IF kind = "b" THEN \E p \in BoolPieces : Word(p) ELSE \E p \in NumPieces : Num(p)
          [] OTHER -> SetStep
Spec == Init /\ [][Next]_vars

TypeOK == st \in {"ok", "err"}
Emitted == Emit => PrintT("BEH " \o ToJson(
               [kind |-> kind, str |-> str, path |-> IF Mode = "set" THEN path ELSE <<>>,
                cfg |-> IF Mode = "num" THEN [k |-> kind] ELSE Cfg(kind)]))
=============================================================================
