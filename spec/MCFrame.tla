------------------------------- MODULE MCFrame -------------------------------
(***************************************************************************)
(* What an operation may change.  Lists, resources and samplers are cells  *)
(* with a number each that grows when the cell is changed; a chain has no  *)
(* token of its own but shows the last one of its members, some of which   *)
(* are also used on their own.  The steps say what each operation does,    *)
(* looking inside; May says what it is for, from the outside, by name      *)
(* only: nothing else may look different afterwards.  List b holds what is *)
(* not a number, so runs on it fail half way.  Every word is printed and   *)
(* replayed with a look at everything between the operations.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Size, Depth, Emit, Bug

VARIABLES list,  \* list -> version
          hist,  \* resource -> version
          draws, \* resource -> words drawn
          tab,   \* sampler -> version of its settings
          mu,    \* sampler -> version of mu
          tok,   \* sampler -> version of the token it reports
          word   \* operations so far
vars == <<list, hist, draws, tab, mu, tok, word>>

L == {"a", "b"}
R == IF Size = 1 THEN {"r", "q"} ELSE {"r"}
Single == {"f", "g", "p", "m"}       \* a filter, one of a chain's, a random choice, Mirostat
S == Single \cup {"c", "d"}          \* chains: c = f, g, p and d = g, m
Members(s) == CASE s = "c" -> <<"f", "g", "p">> [] s = "d" -> <<"g", "m">> [] OTHER -> <<s>>
Pick == {"p", "m"}
Where == IF Size = 1 THEN R \cup {"none"} ELSE R     \* with which resources

Word(op, s, l, r) == [op |-> op, s |-> s, l |-> l, r |-> r]
Actions ==
    {Word("run", s, l, r) : s \in S, l \in L, r \in Where}
    \cup {Word("set", s, "", "") : s \in IF Size = 1 THEN {"f", "m"} ELSE {"m"}}
    \cup {Word("get", "m", "", ""), Word("push", "", "", "r"), Word("hook", "c", "", "r"),
          Word("sort", "", "a", ""), Word("soft", "", "a", ""), Word("soft", "", "b", "")}

---------------------------------------------------------------------------
\* what a run does: its members in turn, up to the first that fails
Asks(s) == s \in Pick
Fails(s, l, r) == Asks(s) /\ (l = "b" \/ r = "none")
RECURSIVE Ran(_, _, _)
Ran(ms, l, r) == IF ms = <<>> THEN <<>>
                 ELSE IF Fails(ms[1], l, r) THEN <<>> ELSE <<ms[1]>> \o Ran(Tail(ms), l, r)
Did(s, l, r) == LET x == Ran(Members(s), l, r) IN {x[i] : i \in 1..Len(x)}
Bump(f, D) == [x \in DOMAIN f |-> IF x \in D THEN f[x] + 1 ELSE f[x]]
Shown(t) == [x \in S |-> t[x]]

Run(w) ==
    LET D == Did(w.s, w.l, w.r)
        P == D \cap Pick
        Q == IF Bug = "frame_draw" THEN D ELSE P
    IN  /\ list' = Bump(list, {w.l})
        /\ draws' = IF w.r = "none" THEN draws ELSE [draws EXCEPT ![w.r] = @ + Cardinality(Q)]
        /\ hist' = IF Bug = "frame_hist" /\ P # {} /\ w.r # "none" THEN Bump(hist, {w.r}) ELSE hist
        /\ mu' = Bump(mu, P \cap {"m"})
        /\ tok' = Bump(tok, (IF Bug = "frame_tok" /\ P # {} THEN Pick ELSE P))
        /\ tab' = IF Bug = "frame_tab" THEN Bump(tab, D \cap {"g"}) ELSE tab
Do(w) ==
    CASE w.op = "run" -> Run(w)
      [] w.op = "set" -> /\ tab' = Bump(tab, IF Bug = "frame_set" THEN {"f", "m"} ELSE {w.s})
                         /\ UNCHANGED <<list, hist, draws, mu, tok>>
      [] w.op \in {"get", "hook"} -> UNCHANGED <<list, hist, draws, tab, mu, tok>>
      [] w.op = "push" -> hist' = Bump(hist, {w.r}) /\ UNCHANGED <<list, draws, tab, mu, tok>>
      [] OTHER -> list' = Bump(list, {w.l}) /\ UNCHANGED <<hist, draws, tab, mu, tok>>
Next == /\ Len(word) < Depth
        /\ \E w \in Actions : Do(w) /\ word' = Append(word, w)
Zero(D) == [x \in D |-> 0]
Init == /\ list = Zero(L) /\ hist = Zero(R) /\ draws = Zero(R) /\ tab = Zero(S) /\ mu = Zero(S) /\ tok = Zero(S)
        /\ word = <<>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what can be seen: a chain shows its members' tokens
Seen(t) == [s \in S |-> [i \in 1..Len(Members(s)) |-> t[Members(s)[i]]]]
\* what an operation is for, by name
Parts(s) == {s} \cup {Members(s)[i] : i \in 1..Len(Members(s))}
May(w) ==
    [list |-> IF w.op \in {"run", "sort", "soft"} THEN {w.l} ELSE {},
     hist |-> IF w.op = "push" THEN {w.r} ELSE {},
     draws |-> IF w.op = "run" /\ Parts(w.s) \cap Pick # {} THEN {w.r} ELSE {},
     tab |-> IF w.op = "set" THEN {w.s} ELSE {},
     mu |-> IF w.op = "run" THEN Parts(w.s) ELSE {},
     tok |-> IF w.op = "run" THEN {s \in S : Parts(s) \cap Parts(w.s) # {}} ELSE {}]
Kept(old, new, D) == \A x \in DOMAIN old : new[x] # old[x] => x \in D
Frame ==
    [][LET m == May(word'[Len(word')])
       IN  /\ Kept(list, list', m.list) /\ Kept(hist, hist', m.hist) /\ Kept(draws, draws', m.draws)
           /\ Kept(tab, tab', m.tab) /\ Kept(mu, mu', m.mu) /\ Kept(Seen(tok), Seen(tok'), m.tok)]_vars
\* the generator moves once for every pick that comes about
Counted == \A r \in R : draws[r] <= Len(word)
TypeOK == Len(word) <= Depth /\ \A s \in S : mu[s] <= Len(word)
Emitted == (Emit /\ Len(word) = Depth) => PrintT("BEH " \o ToJson([word |-> word]))
=============================================================================
