-------------------------------- MODULE MCErr --------------------------------
(***************************************************************************)
(* What a failing configuration string says.  Settings are added to the    *)
(* string one at a time; a reader applies them until one is bad and keeps  *)
(* a note of it: which one it was, and in words (the constant lines of     *)
(* Verdict) what is wrong with it, found by looking at the names of the    *)
(* options only.  Config.tla says what the error for the whole string must *)
(* say, Builder.tla the same for a builder's slot: all must agree, and     *)
(* once a setting is bad nothing that follows changes what is said.  Every *)
(* string is printed and replayed, on samplers, settings one by one, and   *)
(* builders with right and wrong slots.                                    *)
(***************************************************************************)
EXTENDS Builder, Json

CONSTANTS Size, Emit, Bug

VARIABLES kind,   \* which sampler
          path,   \* settings so far: <<key, text>>
          str,    \* the string they make
          opts,   \* the options as the reader has set them
          bad,    \* number of the first bad setting, or 0
          note    \* what is wrong with it
vars == <<kind, path, str, opts, bad, note>>

Kinds == {"spy", "spy8", "hid", "one", "hveto", "hpost", "hswap", "minp", "miro1", "seqrep"}
F1(n, m) == ToF32(RQ(n, m))
Cfg(k) ==
    CASE k \in {"spy", "hid", "one"} -> [k |-> "spy", table |-> IF k = "spy" THEN "full" ELSE k]
      [] k = "spy8" -> [k |-> "spy", table |-> "full"]
      [] k \in HookKinds -> [k |-> "hspy", hooks |-> k, table |-> "full"]
      [] k = "minp" -> [k |-> k, p |-> F1(1, 4), mk |-> 3]
      [] k = "seqrep" -> [k |-> k, f |-> F1(1, 4), s |-> F1(1, 8), ml |-> 4, tol |-> 1, mm |-> 2, ln |-> 9]
      [] k = "miro1" -> [k |-> k, tau |-> F1(1, 1), eta |-> F1(1, 4), m |-> 40, nv |-> 50, hmu |-> FALSE, mu |-> 0]
K == KindOf(Cfg(kind))
Width == IF kind = "spy8" THEN 8 ELSE 64
Opts0(k) == OptsOf(Cfg(k))

c_ == "_"
KeysFor(k) ==
    {<<>>, <<"x">>} \cup
    (CASE k = "hid" -> {<<"m">>, <<"m", "o">>, <<"m", "o", "d">>, <<"m", "o", "d", "e">>, <<"m", "o", "d", "e", "l">>,
                        <<"z">>, <<"z", "e", "d">>, <<"z", "e", "t">>, <<"l", "o", "n", "g">>, <<"l", "o", "n", "g", c_>>}
       [] k = "minp" -> {<<"p">>, <<"m">>, <<"m", "i", "n", c_, "k", "e", "e", "p">>, <<"P">>}
       [] k = "miro1" -> {MuKey, <<"m">>, TauKey, <<"t">>, <<"n", c_>>, <<"m", "u", "s">>}
       [] k = "seqrep" -> {<<"m">>, <<"m", "i">>, <<"m", "a", "x", c_>>, <<"f">>, <<"l">>, <<"t", "o", "l">>}
       [] OTHER -> {<<"a">>, AlKey, <<"a", "l", "p">>, AlphaKey, <<"a", "l", "p", "h", "a", "b">>, <<"b">>, BetaKey, <<"n", "a">>, <<"l">>,
                    <<"A", "L">>})
Texts == {<<"1">>, <<"t">>, <<"3", "0", "0">>, <<".", "5">>, <<>>, <<"=">>}
After == {<<<<"x">>, <<"1">>>>, <<<<"a">>, <<"1">>>>, <<<<"l">>, <<"1">>>>}     \* what may follow a bad one
Depth == IF Size = 1 THEN 2 ELSE 3
Text(p) == IF p[1] = <<>> /\ p[2] = <<"t">> THEN p[2] ELSE p[1] \o <<"=">> \o p[2]

---------------------------------------------------------------------------
\* what is wrong with a setting: the sentence, and the options it could mean
Starts(o, key) == {i \in 1..Len(o) : IsPrefix(key, o[i].key)}
Verdict(o, key, txt) ==
    LET same == {i \in 1..Len(o) : o[i].key = key}
        I == IF same # {} THEN same ELSE Starts(o, key)
        j == CHOOSE i \in I : TRUE
        v == Parse(o[j].ty, txt)
        b == BeforeSet(K, o[j], v.val)
    IN  CASE I = {} -> "there is none"
          [] Cardinality(I) > 1 -> "several"
          [] o[j].val.t = "none" /\ v.ok -> "out of reach"
          [] o[j].val.t = "none" -> "out of reach and unreadable"
          [] ~v.ok -> "unreadable"
          [] ~b.ok -> "refused"
          [] b.val.t # o[j].ty -> "made unfit"
          [] o[j].ty = "u" /\ Width = 8 /\ Len(b.val.d) > 2 /\ b.val.d # <<"2", "5", "5">>
                /\ ~DigitsLe(b.val.d, <<"2", "5", "5">>) -> "too large"
          [] K = "hpost" /\ o[j].key \in {AlKey, BetaKey, NameKey} -> "failed after"
          [] OTHER -> "fine"
\* which kinds of error each allows
KindsOf(n) ==
    CASE n \in {"there is none", "made unfit"} -> {"unknown"}
      [] n = "several" -> {"ambiguous"}
      [] n = "out of reach" -> {"access", "unknown"}
      [] n = "out of reach and unreadable" -> {"access", "unknown", "conversion", "other"}
      [] n = "unreadable" -> {"unknown", "conversion", "other"}
      [] n = "too large" -> {"conversion"}
      [] n \in {"refused", "failed after"} -> {"other"}
      [] n = "fine" -> {}
Reach(n) == n \notin {"fine", "failed after"}       \* the option keeps its value

Add(key, txt) ==
    LET p == <<key, txt>>
        judged == IF Bug = "err_last" THEN TRUE ELSE bad = 0
        n == Verdict(opts, key, txt)
        r == Part(K, opts, Text(p), Width)
    IN  /\ path' = Append(path, p)
        /\ str' = IF path = <<>> THEN Text(p) ELSE str \o <<":">> \o Text(p)
        /\ opts' = IF bad = 0 THEN r.opts ELSE opts
        /\ IF judged /\ n # "fine"
           THEN /\ bad' = Len(path) + 1
                /\ note' = IF Bug = "err_swap" /\ n = "several" THEN "there is none" ELSE n
           ELSE UNCHANGED <<bad, note>>
        /\ UNCHANGED kind
Next ==
    \/ /\ bad = 0 /\ Len(path) < Depth
       /\ \E key \in KeysFor(kind), txt \in Texts : Add(key, txt)
    \/ /\ bad # 0 /\ Len(path) = bad /\ bad = 1
       /\ \E p \in After : Add(p[1], p[2])
Init == kind \in Kinds /\ path = <<>> /\ str = <<>> /\ opts = Opts0(kind) /\ bad = 0 /\ note = "fine"
Spec == Init /\ [][Next]_vars

TypeOK == bad \in 0..Depth
Said == ConfigureWhy(K, Opts0(kind), str, Width)
Agree ==
    /\ (Said = <<>>) = (bad = 0)
    /\ bad # 0 => Said[1].ks = KindsOf(note)
    /\ Configure(K, Opts0(kind), str, Width).ok = (bad = 0)
    /\ Configure(K, Opts0(kind), str, Width).opts = opts
\* the name carried is one the user gave in the bad part, or begins with it
NamesIt ==
    bad # 0 => LET key == path[bad][1]
               IN  /\ \A x \in Said[1].ns : IsPrefix(key, x) /\ (x # key => \E i \in Starts(opts, key) : opts[i].key = x)
                   /\ (key # <<>> /\ note \notin {"unreadable", "out of reach and unreadable", "refused", "failed after"})
                         => key \in Said[1].ns
\* an error of the sampler's own comes back word for word
OwnWords == bad # 0 => /\ (note = "refused") = (Said[1].says = RefusedText)
                       /\ (note = "failed after") = (Said[1].says = AfterText)
\* one setting by itself says the same as in the string
Alone ==
    (bad # 0 /\ bad = Len(path)) =>
        LET key == path[bad][1]
            before == IF bad = 1 THEN Opts0(kind) ELSE Configure(K, Opts0(kind), SubSeq(str, 1, Len(str) - Len(Text(path[bad])) - 1), Width).opts
            i == Resolve(Keys(before), key)
            v == IF i < 1 THEN Good(UVal(<<"1">>)) ELSE Parse(before[i].ty, path[bad][2])
        IN  (v.ok /\ Text(path[bad]) # <<>>) =>
               LET w == SetWhy(K, before, key, v.val, Width)
               IN  w # <<>> /\ w[1].ks \subseteq Said[1].ks /\ w[1].says = Said[1].says
\* in a builder: the slot's name around it
B1 == <<[name |-> "f", ty |-> "static", fac |-> [kind |-> K, opts |-> Opts0(kind)], sams |-> <<>>],
        [name |-> "s", ty |-> "single", fac |-> [kind |-> K, opts |-> Opts0(kind)], sams |-> <<>>],
        [name |-> "c", ty |-> "chain", fac |-> [kind |-> K, opts |-> Opts0(kind)], sams |-> <<>>]>>
InSlots ==
    Width = 64 =>
        /\ SlotWhy(B1, "x", <<"x">>, str) = Why({"slot"}, {<<"x">>})
        /\ SlotWhy(B1, "f", <<"f">>, str) = Why({"static"}, {<<"f">>})
        /\ \A n \in {"s", "c"} : SlotWhy(B1, n, <<n>>, str) =
               IF bad = 0 THEN <<>>
               ELSE Why({"configure"}, {<<n>>}) \o (IF Bug = "err_inner" THEN <<>> ELSE Said)
\* once bad, what is said stays
Stays == [][bad # 0 => /\ bad' = bad /\ note' = note
                       /\ ConfigureWhy(K, Opts0(kind), str', Width) = Said]_vars
Emitted == (Emit /\ path # <<>>) => PrintT("BEH " \o ToJson(
               [kind |-> kind, path |-> path, str |-> str, bad |-> bad, cfg |-> Cfg(kind)]))
=============================================================================
