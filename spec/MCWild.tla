-------------------------------- MODULE MCWild --------------------------------
(***************************************************************************)
(* Extremes: every sampler with every combination of extreme settings on   *)
(* every short list of extreme logits, with extreme histories.  What comes *)
(* out is left open here (anything C28 allows: success or an error); the   *)
(* point is the enumeration, which is printed and replayed.                *)
(***************************************************************************)
EXTENDS CandList, TLC, Json

CONSTANTS Size, Emit

VARIABLES base, out
vars == <<base, out>>

FNaN == 2143289344
FMax == 2139095039
FMin == -8388609
Tiny == 1
H == 2147483647
Cat(f(_), q) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, q)
X2(A, B, f(_, _)) == Cat(LAMBDA a : [i \in 1..Len(B) |-> f(a, B[i])], A)
X3(A, B, C, f(_, _, _)) == Cat(LAMBDA a : X2(B, C, LAMBDA b, x : f(a, b, x)), A)
Fl == <<FZero, FNegZero, ToF32(R1), ToF32(RInt(-1)), FPosInf, FNegInf, FNaN, FMax, FMin, Tiny>>
Fs == <<FZero, ToF32(R1), FPosInf, FNegInf, FNaN, FMax>>
MKs == <<0, 1, H>>
Menu ==
    <<[k |-> "greedy"], [k |-> "rand"]>>
    \o X2(MKs, MKs, LAMBDA n, m : [k |-> "topk", n |-> n, mk |-> m])
    \o Cat(LAMBDA kd : X2(Fl, MKs, LAMBDA p, m : [k |-> kd, p |-> p, mk |-> m]), <<"topp", "minp", "loctyp">>)
    \o X2(Fl, MKs, LAMBDA p, m : [k |-> "tailfree", z |-> p, mk |-> m])
    \o X3(Fs, Fs, <<1, H>>, LAMBDA a, b, m : [k |-> "topa", a1 |-> a, a2 |-> b, mk |-> m])
    \o Cat(LAMBDA t : <<[k |-> "temp", t |-> t]>>, Fl)
    \o Cat(LAMBDA t : <<[k |-> "flat", b |-> <<<<0, t>>>>], [k |-> "flat", b |-> <<<<1, t>>, <<1, FPosInf>>, <<-1, t>>>>]>>, Fl)
    \o X2(Fl, <<0, 1, 3, H>>, LAMBDA p, n : [k |-> "rep", pen |-> p, ln |-> n])
    \o X3(Fs, Fs, <<1, H>>, LAMBDA f, p, n : [k |-> "freq", f |-> f, p |-> p, ln |-> n])
    \o X3(<<<<ToF32(R1), FZero>>, <<FNaN, FPosInf>>, <<FMax, FMax>>>>,
          X2(<<0, 1, 2, 3, H>>, <<0, 1, H>>, LAMBDA a, b : <<a, b>>),
          X2(<<0, 1, 2, H>>, <<1, 4, H>>, LAMBDA a, b : <<a, b>>),
          LAMBDA fs, x, y : [k |-> "seqrep", f |-> fs[1], s |-> fs[2], ml |-> x[1], tol |-> x[2],
                             mm |-> y[1], ln |-> y[2]])
    \o X3(<<FZero, FNegInf, FNaN, FMax>>, <<ToF32(R1), FPosInf, FNaN>>, Fs,
          LAMBDA t, e, u : [k |-> "miro2", tau |-> t, eta |-> e, hmu |-> TRUE, mu |-> u])
    \o Cat(LAMBDA mn : X2(<<FZero, FNaN>>, Fs,
          LAMBDA t, u : [k |-> "miro1", tau |-> t, eta |-> ToF32(R1), hmu |-> TRUE, mu |-> u, m |-> mn[1], nv |-> mn[2]]),
          X2(<<0, 1, 2, H>>, <<0, 1, 2, H>>, LAMBDA a, b : <<a, b>>))

Seqs(A, n) == UNION {[1..i -> A] : i \in 0..n}
Logit == {FZero, FNegInf, FPosInf, FNaN, FMax, FMin, ToF32(R1)}
ListOf(ls) == [i \in 1..Len(ls) |-> <<i - 1, ls[i], FZero>>]
\* flags: none, and the ones earlier operations would have set
Bases ==
    LET few == Seqs(Logit, 1)
               \cup {<<FNegInf, FNegInf>>, <<FPosInf, FPosInf>>, <<FNaN, FNaN>>, <<FPosInf, FNegInf>>, <<FMax, FMin>>,
                     <<FNaN, FZero>>, <<FZero, FNaN, FPosInf>>, <<FZero, FZero, FZero>>, <<FMax, FZero, FMin>>,
                     <<FZero, FNegInf, FNegInf>>, <<ToF32(R1), FZero, FNaN, FNegInf>>}
        more == Seqs(Logit, 2)
    IN  {[e |-> ListOf(ls), soft |-> s, hist |-> h] :
            ls \in IF Size = 1 THEN few ELSE few \cup more,
            s \in IF Size = 1 THEN {FALSE} ELSE BOOLEAN,
            h \in IF Size = 1 THEN {<<0, 1, 0, 1, 0>>} ELSE {<<>>, <<0, 1, 0, 1, 0>>}}
Init == base \in Bases /\ out = "none"
Next == out = "none" /\ out' \in {"ok", "err"} /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
TypeOK == out \in {"none", "ok", "err"}
ASSUME Emit => PrintT("MENU " \o ToJson(Menu))
Emitted == (Emit /\ out = "none") => PrintT("BEH " \o ToJson(base))
=============================================================================
