-------------------------------- MODULE MCList --------------------------------
(***************************************************************************)
(* Building a list from values that arrive one by one: the plain list, and *)
(* for every limit k the k largest finite values kept so far.  After every *)
(* value the results must be what C27 says of the values so far.  All      *)
(* sequences of values are printed and given to the real constructors.     *)
(***************************************************************************)
EXTENDS CandList, TLC, Json

CONSTANTS Size, Emit, Bug

VARIABLES v,     \* the values so far
          all,   \* <<position, value>> of all, until a NaN
          nan,   \* 0-based position of the first NaN, or -1
          top    \* limit -> <<position, value>> kept
vars == <<v, all, nan, top>>

FNaN == 2143289344
Vals == {FNaN, FPosInf, FNegInf, FZero, FNegZero, ToF32(R1), ToF32(RInt(2))}
Ks == 0..(IF Size = 1 THEN 4 ELSE 5) \cup {2147483647}
Depth == IF Size = 1 THEN 4 ELSE 5

\* before the first smaller one
Insert(s, x) ==
    LET I == {i \in 1..Len(s) : FLt(s[i][2], x[2])}
        at == IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
    IN  SubSeq(s, 1, at - 1) \o <<x>> \o SubSeq(s, at, Len(s))
First(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)
Init == /\ v = <<>> /\ all = <<>> /\ nan = -1 /\ top = [k \in Ks |-> <<>>]
Arrive(x) ==
    /\ v' = Append(v, x)
    /\ nan' = IF nan = -1 /\ FIsNaN(x) THEN Len(v) ELSE nan
    /\ all' = Append(all, <<Len(v), x>>)
    /\ top' = IF ~FIsFinite(x) THEN top
              ELSE [k \in Ks |-> First(Insert(top[k], <<IF Bug = "renumber" THEN Len(top[2147483647]) ELSE Len(v), x>>),
                                       IF Bug = "one_more" THEN k + 1 - (k \div 2147483647) ELSE k)]
Next == Len(v) < Depth /\ \E x \in Vals : Arrive(x)
Spec == Init /\ [][Next]_vars

TypeOK == nan \in -1..Depth
PlainOK == nan = -1 => \A i \in 1..Len(v) : ~FIsNaN(v[i]) /\ all[i] = <<i - 1, v[i]>>
NaNOK == nan # -1 => FIsNaN(v[nan + 1]) /\ \A i \in 1..nan : ~FIsNaN(v[i])
TopOK ==
    LET fin == SelectSeq([i \in 1..Len(v) |-> <<i - 1, v[i], 0>>], LAMBDA x : FIsFinite(x[2]))
    IN  \A k \in Ks :
          LET t == [i \in 1..Len(top[k]) |-> <<top[k][i][1], top[k][i][2], 0>>]
          IN  /\ Len(t) = IMin(k, Len(fin))
              /\ Distinct(t) /\ Descending(t) /\ TopSet(t, fin)
Emitted == Emit => PrintT("BEH " \o ToJson([v |-> v, ks |-> SetToSeq(Ks)]))
=============================================================================
