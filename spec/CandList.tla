------------------------------ MODULE CandList ------------------------------
(***************************************************************************)
(* The candidate list: a sequence of <<token id, logit, probability>>, the *)
(* last two as f32 bit patterns, together with the flags "sorted" and      *)
(* "softmax".                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, RealNum

Tk(x) == x[1]
Lg(x) == x[2]
Pb(x) == x[3]

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b

R10(k) == RPow(RInt(10), RInt(k))
RQe(m, k) == RMul(RInt(m), R10(k))       \* m * 10^k

Logits(e) == TLCEval([i \in 1..Len(e) |-> e[i][2]])
Tokens(e) == {e[i][1] : i \in 1..Len(e)}
Pairs(e)  == {<<e[i][1], e[i][2]>> : i \in 1..Len(e)}
PairSeq(e) == TLCEval([i \in 1..Len(e) |-> <<e[i][1], e[i][2]>>])
TokSeq(e) == TLCEval([i \in 1..Len(e) |-> e[i][1]])
Distinct(e) == Cardinality(Tokens(e)) = Len(e)

\* bags given as sequences: q is contained in r
Count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
SeqBagLe(q, r) ==
    LET Sq == {q[i] : i \in 1..Len(q)}
        Sr == {r[i] : i \in 1..Len(r)}
    IN  /\ Cardinality(Sr) <= Len(r)           \* (has TLC sort it first)
        /\ Sq \subseteq Sr
        /\ \/ Cardinality(Sq) = Len(q)
           \/ \A v \in Sq : Count(q, v) <= Count(r, v)
SeqBagEq(q, r) == Len(q) = Len(r) /\ SeqBagLe(q, r)

NoNaN(e) == \A i \in 1..Len(e) : ~FIsNaN(e[i][2])
MaxLogit(e) == FoldLeft(LAMBDA a, x : IF FLt(a, x[2]) THEN x[2] ELSE a, FNegInf, e)
\* lists whose probabilities are defined
Regular(e) == e = <<>> \/ (NoNaN(e) /\ FIsFinite(MaxLogit(e)))

Descending(e) == \A i \in 1..(Len(e) - 1) : FLe(e[i + 1][2], e[i][2])

\* the softmax of a sequence of logits, over the reals
SoftmaxOf(ls) ==
    LET m == R32(FoldLeft(LAMBDA a, x : IF FLt(a, x) THEN x ELSE a, FNegInf, ls))
        w == TLCEval([i \in 1..Len(ls) |-> RExp(RSub(R32(ls[i]), m))])
        s == FoldLeft(RAdd, R0, w)
    IN  TLCEval([i \in 1..Len(ls) |-> RDiv(w[i], s)])
Softmax(e) == SoftmaxOf(Logits(e))
SumR(q) == FoldLeft(RAdd, R0, q)
\* running sums
CumR(q) == FoldLeft(LAMBDA a, x : Append(a, RAdd(IF a = <<>> THEN R0 ELSE a[Len(a)], x)),
                    <<>>, q)

\* rounding allowance of single precision for a softmax of n entries
SoftRel(n) == RAdd(RQe(2, -5), RMul(RInt(n), RQe(12, -8)))
ProbOK(p, r, n) == RLe(RAbs(RSub(R32(p), r)), RAdd(RMul(r, SoftRel(n)), R10(-43)))
Softmaxed(e) ==
    LET r == Softmax(e)
    IN  \A i \in 1..Len(e) : ~FIsNaN(e[i][3]) /\ ProbOK(e[i][3], r[i], Len(e))

\* the flags tell the truth
Truthful(e, so, sm) ==
    /\ so => Descending(e)
    /\ sm => (e = <<>> \/ Softmaxed(e))

\* q keeps the Len(q) highest logits of e (ties in any way)
TopSet(q, e) ==
    /\ SeqBagLe(PairSeq(q), PairSeq(e))
    /\ LET sq == FSortDesc(Logits(q))
           se == FSortDesc(Logits(e))
       IN  \A i \in 1..Len(q) : FEq(sq[i], se[i])

\* The descending probabilities of a list.  When they are small dyadic
\* numbers, single precision computes with them exactly and so does the
\* specification (no allowance); the recorded ones are used if they are
\* flagged as computed.
DescProbs(e, sm) ==
    LET n == Len(e)
        rec == TLCEval([i \in 1..n |-> e[i][3]])
        srt == FSortDesc(rec)
        rp == TLCEval([i \in 1..n |-> R32(srt[i])])
        sp == SoftmaxOf(FSortDesc(Logits(e)))
        dy(q) == \A i \in 1..n : RIsDyadic(q[i], 12)
        useRec == sm /\ dy(rp)
    IN  IF useRec THEN [p |-> rp, exact |-> TRUE]
        ELSE [p |-> sp, exact |-> dy(sp)]

MassEps(n) == RAdd(RQe(2, -6), RMul(RInt(n), RQe(15, -8)))
\* a and b are the same number (or both not numbers)
FSame(a, b) == a = b \/ FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b))
RNear(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
=============================================================================
