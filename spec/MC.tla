--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* One candidate list and the samplers, exhaustively within small bounds.  *)
(*                                                                         *)
(* Two uses.  A sweep tries every entry of a menu of samplers on every     *)
(* base list (mode "sweep"); a path runs every sequence of menu entries    *)
(* one after the other on the same list (mode "path").  Every step is an   *)
(* outcome of Samplers and every outcome must be Right, i.e. satisfy the   *)
(* declarative properties.  The bases, menus and paths are printed, and    *)
(* the same behaviours are then replayed on the real samplers and judged   *)
(* by the same properties (Trace.tla).                                     *)
(*                                                                         *)
(* Prop selects bases and menu, Size in {1, 2} how large.                  *)
(***************************************************************************)
EXTENDS Samplers, Json

CONSTANTS Prop, Size, Emit

VARIABLES base,   \* [L, r]: the list at the start and the surroundings
          k,      \* menu entries tried (sweep)
          L,      \* the list now (path)
          path,   \* menu entries run (path)
          obs,    \* the last step, or <<>>
          last    \* kind of the sampler before
vars == <<base, k, L, path, obs, last>>

Seqs(A, n) == UNION {[1..i -> A] : i \in 0..n}
F(n, m) == ToF32(RQ(n, m))
LN2(j) == ToF32(RNeg(RMul(RInt(j), RLn(RInt(2)))))     \* ln 2^-j

\* a list of these logits, ids from 10 on in order
Plain(ls) == ListOf([i \in 1..Len(ls) |-> <<9 + i, ls[i], FZero>>], FALSE, FALSE)
\* the same with each truthful combination of flags
Flagged(ls) ==
    LET P == Plain(ls)
        S == DoSort(P)
    IN  {P, S}
        \cup (IF Regular(P.e) /\ ls # <<>>
              THEN {DoSoft(P), ListOf(Reverse(DoSoft(P).e), FALSE, TRUE)}
              ELSE {})
\* exact probabilities w[i] / tot, w descending; zeros are impossible tokens
Exact(w, tot) ==
    ListOf([i \in 1..Len(w) |->
              <<IF i % 2 = 0 THEN -i ELSE 70000 + i,
                IF w[i] = 0 THEN FNegInf ELSE ToF32(RLn(RQ(w[i], tot))),
                ToF32(RQ(w[i], tot))>>], TRUE, TRUE)
Turned(X) == ListOf(Reverse(X.e), FALSE, TRUE)
RECURSIVE Parts(_, _)
\* descending sequences of positive integers up to m adding up to n
Parts(n, m) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION {{<<x>> \o p : p \in Parts(n - x, x)} : x \in 1..(IF m < n THEN m ELSE n)}
ExactLists(tot) == {Exact(w, tot) : w \in Parts(tot, tot)}
WithZeros(S, z) == {ListOf(X.e \o [i \in 1..z |-> <<500 + i, FNegInf, FZero>>], TRUE, TRUE) : X \in S}

Alone == [rng |-> FALSE, hh |-> FALSE, h |-> <<>>]
With(h) == [rng |-> TRUE, hh |-> TRUE, h |-> h]
Base(S, R) == {[L |-> x, r |-> r] : x \in S, r \in R}

---------------------------------------------------------------------------
\* menus
Cat(f(_), q) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, q)
ToSeq(S) == SetToSeq(S)
Q16(a, b) == [i \in 1..(b - a + 1) |-> F(a + i - 1, 16)]
MKs == IF Size = 1 THEN <<0, 1, 2, 4, 2147483647>> ELSE <<0, 1, 2, 3, 4, 5, 9, 2147483647>>
Odd == <<F(-1, 1), F(-1, 4), F(2, 1), F(1, 3), FNegInf, FPosInf, F(1, 1000)>>
Ps == (IF Size = 1 THEN <<F(0, 1), F(1, 8), F(1, 4), F(3, 8), F(1, 2), F(5, 8), F(3, 4), F(7, 8), F(1, 1)>>
       ELSE Q16(0, 17)) \o Odd
Cross2(A, B, f(_, _)) == Cat(LAMBDA a : [i \in 1..Len(B) |-> f(a, B[i])], A)
TopKs == Cross2(<<0, 1, 2, 3, 4, 5, 2147483647>>, MKs, LAMBDA n, m : [k |-> "topk", n |-> n, mk |-> m])
TopPs == Cross2(Ps, MKs, LAMBDA p, m : [k |-> "topp", p |-> p, mk |-> m])
MinPs == Cross2(Ps, MKs, LAMBDA p, m : [k |-> "minp", p |-> p, mk |-> m])
LocTyps == Cross2(Ps, MKs, LAMBDA p, m : [k |-> "loctyp", p |-> p, mk |-> m])
TailFrees == Cross2(Ps, MKs, LAMBDA p, m : [k |-> "tailfree", z |-> p, mk |-> m])
A1s == <<F(0, 1), F(1, 4), F(1, 2), F(1, 1), F(2, 1), F(-1, 2), F(1, 16)>>
A2s == <<F(0, 1), F(1, 1), F(2, 1), F(1, 2), F(-1, 1)>>
TopAs == Cat(LAMBDA a1 : Cross2(A2s, MKs, LAMBDA a2, m : [k |-> "topa", a1 |-> a1, a2 |-> a2, mk |-> m]), A1s)
Temps == [i \in 1..12 |-> [k |-> "temp", t |->
            <<FZero, FNegZero, F(1, 1), F(1, 2), F(2, 1), F(-1, 1), F(1, 1000), F(3, 1), 1, -2147483647,
              2122317823, FPosInf>>[i]]]

---------------------------------------------------------------------------
\* what each property's sweep consists of
Small == {F(0, 1), F(1, 1), F(-2, 1), FNegInf}
Few == IF Size = 1 THEN Seqs(Small, 3) ELSE Seqs(Small, 4)
Lists == UNION {Flagged(ls) : ls \in Few}
Exacts == IF Size = 1 THEN ExactLists(8) ELSE ExactLists(8) \cup ExactLists(16)
ExactBoth == Exacts \cup {Turned(X) : X \in Exacts}
Regulars == {X \in Lists : Regular(X.e)}
HistsOf(A, n) == {With(h) : h \in Seqs(A, n)}

Bias(b) == [k |-> "flat", b |-> b]
BV == <<FZero, F(1, 1), F(-3, 2), FNegInf>>
BiasEntries == Cross2(<<10, 11, 99>>, BV, LAMBDA t, v : <<t, v>>)
Flats == <<Bias(<<>>)>>
         \o [i \in 1..Len(BiasEntries) |-> Bias(<<BiasEntries[i]>>)]
         \o Cross2(BiasEntries, BiasEntries, LAMBDA x, y : Bias(<<x, y>>))

Pens == <<F(2, 1), F(3, 2), F(1, 1), F(1, 2), FZero>>
LNs == <<0, 1, 2, 3, 4, 5, 64>>
Reps == Cross2(Pens, LNs, LAMBDA p, n : [k |-> "rep", pen |-> p, ln |-> n])
FPs == <<FZero, F(1, 2), F(-1, 1), F(3, 1)>>
Freqs == Cat(LAMBDA f : Cross2(FPs, LNs, LAMBDA p, n : [k |-> "freq", f |-> f, p |-> p, ln |-> n]), FPs)
\* a penalty that shows the length found: flat 1/2, stacking 1
SeqC(ml, tol, mm, ln) == [k |-> "seqrep", f |-> F(1, 2), s |-> F(1, 1), ml |-> ml, tol |-> tol, mm |-> mm, ln |-> ln]
SeqShapes == Cat(LAMBDA ml : Cross2(IF Size = 1 THEN <<0, 1, 2>> ELSE <<0, 1, 2, 3>>,
                                    IF Size = 1 THEN <<0, 2>> ELSE <<0, 1, 2, 3>>,
                                    LAMBDA t, m : <<ml, t, m>>), <<2, 3, 4>>)
SeqReps == Cross2(SeqShapes, IF Size = 1 THEN <<64, 6>> ELSE <<64, 5, 6, 7>>,
                  LAMBDA x, ln : SeqC(x[1], x[2], x[3], ln))
           \o <<SeqC(1, 0, 1, 64), SeqC(0, 0, 1, 64), SeqC(3, 0, 1, 2), SeqC(3, 1, 1, 3),
                [SeqC(2, 0, 1, 64) EXCEPT !.f = FZero, !.s = FZero],
                [SeqC(2, 0, 1, 64) EXCEPT !.f = FZero], [SeqC(2, 0, 1, 64) EXCEPT !.s = FZero]>>

Miros(kind) == Cat(LAMBDA mu : Cross2(<<F(1, 2), F(3, 1)>>, <<FZero, F(1, 1)>>,
    LAMBDA tau, eta : [k |-> kind, tau |-> tau, eta |-> eta, hmu |-> TRUE, mu |-> mu, m |-> 100, nv |-> 50]),
    <<F(-1, 1), FZero, F(1, 1), F(3, 2), F(2, 1), F(3, 1), F(4, 1), F(20, 1)>>)
Miro1s == Cat(LAMBDA m : [i \in 1..Len(Miros("miro1")) |-> [Miros("miro1")[i] EXCEPT !.m = m]], <<100, 2, 3, 0>>)
          \o <<[Miros("miro1")[1] EXCEPT !.nv = 0], [Miros("miro1")[1] EXCEPT !.nv = 1],
               [Miros("miro1")[3] EXCEPT !.nv = 2], [Miros("miro1")[9] EXCEPT !.m = 1]>>
Pick(kk) == [k |-> kk]
ListOps == <<[k |-> "sort"], [k |-> "soft"]>>

\* one of each kind, for sequences
OneOfEach ==
    ListOps \o
    <<[k |-> "topk", n |-> 2, mk |-> 1], [k |-> "topp", p |-> F(3, 4), mk |-> 1],
      [k |-> "minp", p |-> F(1, 4), mk |-> 1], [k |-> "topa", a1 |-> F(1, 1), a2 |-> F(1, 1), mk |-> 1],
      [k |-> "tailfree", z |-> F(1, 2), mk |-> 1], [k |-> "loctyp", p |-> F(1, 2), mk |-> 1],
      [k |-> "temp", t |-> F(-1, 1)], [k |-> "temp", t |-> F(1, 2)], Bias(<<<<10, F(2, 1)>>, <<12, F(-1, 1)>>>>),
      Bias(<<<<11, FNegInf>>>>),
      [k |-> "rep", pen |-> F(2, 1), ln |-> 2], [k |-> "freq", f |-> F(3, 2), p |-> F(1, 2), ln |-> 3],
      SeqC(2, 0, 1, 64), Pick("greedy"), Pick("rand"), Miros("miro2")[14], Miros("miro1")[14]>>
HistTiny == <<10, 11, 10, 12, 10, 11, 10>>
\* a list with distinct logits, one with ties, one with an impossible token
PathBases ==
    Base({Plain(<<F(0, 1), F(1, 1), F(2, 1)>>), Plain(<<F(1, 1), F(1, 1), FNegInf>>)}
         \cup (IF Size = 1 THEN {}
               ELSE {Plain(<<>>), Plain(<<F(-1, 1)>>), Plain(<<F(3, 1), F(1, 2), F(1, 1), F(2, 1)>>)}),
         {With(HistTiny)} \cup (IF Prop \in {"C23", "C21"} THEN {Alone} ELSE {}))

Depth0 == IF Size = 1 THEN 3 ELSE 4
\* C14: a ban, anything whose settings keep banned tokens out, a picker
BanOf(T) == Bias([i \in 1..Len(T) |-> <<T[i], FNegInf>>])
C14Menu == <<BanOf(<<10>>), BanOf(<<11>>), BanOf(<<12, 10>>)>>
           \o <<Pick("greedy"), Pick("rand"), Miros("miro2")[14], Miros("miro1")[14], Miros("miro2")[2]>>
           \o SelectSeq(OneOfEach, LAMBDA c : c.k \notin Pickers \cup {"flat"} /\ ~(c.k = "temp" /\ FLt(c.t, FZero)))
           \o <<Bias(<<<<10, F(2, 1)>>, <<12, F(-1, 1)>>>>), [k |-> "temp", t |-> FZero],
                [k |-> "topk", n |-> 0, mk |-> 1], [k |-> "topp", p |-> F(1, 1), mk |-> 9]>>
Allowed(p, j) == Prop # "C14" \/ (CASE p = <<>> -> j <= 3
                                    [] Len(p) = Depth0 - 1 -> j \in 4..8
                                    [] OTHER -> TRUE)

Mode == IF Prop \in {"C01", "C02", "C21", "C23", "C12", "C03", "C14"} THEN "path" ELSE "sweep"
Depth == IF Prop = "C14" THEN Depth0
         ELSE IF Prop \in {"C12", "C03"} THEN IF Size = 1 THEN 2 ELSE 3
         ELSE IF Size = 1 THEN 2 ELSE 3

Bases ==
    CASE Mode = "path" ->
            IF Prop \in {"C12", "C03"} THEN Base({Plain(ls) : ls \in Seqs({F(0, 1), F(1, 1), FNegInf}, 3)}
                                                 , {With(HistTiny)})
            ELSE IF Prop = "C14"
            THEN Base({Plain(<<F(0, 1), F(1, 1), F(2, 1)>>), Plain(<<F(1, 1), F(1, 1), F(1, 1)>>),
                       DoSoft(Plain(<<F(3, 1), F(-1, 1), F(0, 1)>>)), DoSort(Plain(<<F(2, 1), F(2, 1), FNegInf, F(1, 1)>>)),
                       Exact(<<4, 2, 1, 1>>, 8)},
                      {With(HistTiny)})
            ELSE PathBases
      [] Prop = "C04" -> Base({X \in ExactBoth : Len(X.e) < 7} \cup Regulars, {Alone})
      [] Prop = "C05" -> Base(Lists, {Alone})
      [] Prop \in {"C06", "C07"} -> Base(ExactBoth \cup WithZeros(Exacts, 1) \cup Regulars, {Alone})
      [] Prop = "C08" -> Base(ExactBoth \cup WithZeros(Exacts, 2) \cup Regulars, {Alone})
      [] Prop = "C09" -> Base(ExactBoth \cup WithZeros(Exacts, 2) \cup Regulars, {Alone})
      [] Prop = "C10" -> Base(ExactBoth \cup WithZeros(ExactLists(8), 1) \cup Regulars, {With(<<>>), Alone})
      [] Prop = "C11" -> Base({X \in ExactBoth : Len(X.e) < 7} \cup Regulars, {With(<<>>), Alone})
      [] Prop = "C13" -> Base(ExactBoth \cup Regulars, {With(<<>>), Alone})
      [] Prop = "C15" -> Base({Plain(ls) : ls \in Few} \cup Lists, {Alone})
      [] Prop \in {"C16", "C17"} ->
            Base({Plain(<<F(0, 1), F(2, 1), F(-2, 1)>>), DoSoft(Plain(<<F(1, 1), F(-1, 1), FNegInf>>)),
                  ListOf(<<<<10, F(1, 1), 0>>, <<12, F(-1, 1), 0>>, <<10, F(1, 2), 0>>>>, FALSE, FALSE)},
                 HistsOf({10, 11, 12, 13}, IF Size = 1 THEN 4 ELSE 6) \cup {Alone})
      [] Prop = "C18" ->
            Base({Plain(<<F(0, 1), F(0, 1), F(0, 1)>>)},
                 HistsOf({10, 11}, IF Size = 1 THEN 7 ELSE 10)
                 \cup HistsOf({10, 11, 12}, IF Size = 1 THEN 5 ELSE 7) \cup {Alone})
      [] Prop = "C19" -> Base(Lists \cup ExactBoth, {Alone})
      [] OTHER -> {}
Menu ==
    CASE Mode = "path" -> IF Prop \in {"C03"} THEN ListOps \o ListOps \o Temps \o <<OneOfEach[11], OneOfEach[3]>>
                          ELSE IF Prop = "C14" THEN C14Menu
                          ELSE OneOfEach
      [] Prop = "C04" -> Cat(LAMBDA q : SelectSeq(q, LAMBDA c : c.mk >= 1),
                             <<TopKs, TopPs, MinPs, LocTyps, TailFrees, TopAs>>)
      [] Prop = "C05" -> TopKs
      [] Prop = "C06" -> TopPs
      [] Prop = "C07" -> MinPs \o TopAs
      [] Prop = "C08" -> LocTyps
      [] Prop = "C09" -> TailFrees
      [] Prop = "C10" -> Miros("miro2")
      [] Prop = "C11" -> Miro1s
      [] Prop = "C13" -> <<Pick("rand")>>
      [] Prop = "C15" -> Flats
      [] Prop = "C16" -> Reps
      [] Prop = "C17" -> Freqs
      [] Prop = "C18" -> SeqReps
      [] Prop = "C19" -> Temps
      [] OTHER -> <<>>

---------------------------------------------------------------------------
ASSUME Emit => PrintT("MENU " \o ToJson(Menu))

Init ==
    /\ base \in Bases
    /\ k = 0 /\ L = base.L /\ path = <<>> /\ obs = <<>> /\ last = "new"

MuOf(c) == IF c.k \in Miro THEN Mu0(c) ELSE 0
Try ==
    /\ Mode = "sweep"
    /\ k < Len(Menu)
    /\ k' = k + 1
    /\ LET c == Menu[k + 1]
       IN  \E o \in Outcomes(c, MuOf(c), base.L, base.r) :
              obs' = <<ObsOf(c, MuOf(c), base.L, base.r, o, "new")>>
    /\ UNCHANGED <<base, L, path, last>>
Run ==
    /\ Mode = "path"
    /\ Len(path) < Depth
    /\ \E j \in {x \in 1..Len(Menu) : Allowed(path, x)} :
          LET c == Menu[j]
          IN  \E o \in Outcomes(c, MuOf(c), L, base.r) :
                /\ obs' = <<ObsOf(c, MuOf(c), L, base.r, o, last)>>
                /\ L' = o.L
                /\ path' = Append(path, j)
                /\ last' = c.k
    /\ UNCHANGED <<base, k>>
Next == Try \/ Run
Spec == Init /\ [][Next]_vars

TypeOK == /\ k \in 0..Len(Menu)
          /\ obs = <<>> \/ obs[1].out \in {"ok", "err"}
AllRight == obs # <<>> => Right(obs[1])
\* a banned token is never picked while another one is possible (C14)
BansIn(p) == UNION {{Menu[p[i]].b[j][1] : j \in {x \in 1..Len(Menu[p[i]].b) : Menu[p[i]].b[x][2] = FNegInf}}
                      : i \in {x \in 1..Len(p) : Menu[p[x]].k = "flat"}}
NeverBanned ==
    (Prop = "C14" /\ obs # <<>>) =>
        LET o == obs[1]
            ban == BansIn(path) \cap Tokens(base.L.e)
            left == \E i \in 1..Len(o.pre) : FIsFinite(o.pre[i][2]) /\ o.pre[i][1] \notin ban
        IN  left => /\ o.out = "ok"
                    /\ o.tok = <<>> \/ o.tok[1] \notin ban
                    /\ o.cfg.k \in Pickers => o.tok # <<>>
Truth == Regular(L.e) => Truthful(L.e, L.so, L.sm)
Emitted ==
    (Emit /\ IF Mode = "sweep" THEN k = 0 ELSE Len(path) = Depth) =>
        PrintT("BASE " \o ToJson([e |-> base.L.e, so |-> base.L.so, sm |-> base.L.sm,
                                  rng |-> base.r.rng, hh |-> base.r.hh, h |-> base.r.h, path |-> path]))
=============================================================================
