------------------------------- MODULE Samplers -------------------------------
(***************************************************************************)
(* The samplers as state transitions: what one run does to a candidate     *)
(* list, to the token it reports and to Mirostat's mu.  SamplerProps says  *)
(* which outcomes are right; this module says how they come about, so the  *)
(* two check each other (MC.tla).                                          *)
(*                                                                         *)
(* A list is [e, so, sm] (entries and flags).  The surroundings of a run   *)
(* are [rng, hh, h]: whether there is randomness and a history, and the    *)
(* history.  An outcome is [L, out, err, tok, mu].                         *)
(*                                                                         *)
(* Bug names a deliberate mistake (or "none"): with it some property must  *)
(* fail, which shows that the properties can tell (see MC.tla, Bugs).      *)
(***************************************************************************)
EXTENDS SamplerProps

CONSTANT Bug

ListOf(e, so, sm) == [e |-> e, so |-> so, sm |-> sm]
Sorted(e) == SortSeq(e, LAMBDA a, b : FLt(b[2], a[2]))

\* list operations
DoSort(L) == IF L.so THEN L
             ELSE ListOf(IF Bug = "sort_noop" THEN L.e ELSE Sorted(L.e), TRUE, L.sm)
WithProbs(e) ==
    LET p == Softmax(e)
        q == IF Bug = "soft_nomax"       \* exp without subtracting the maximum
             THEN LET w == [i \in 1..Len(e) |-> RExp(R32(e[i][2]))]
                      s == SumR(w)
                  IN  [i \in 1..Len(e) |-> RDiv(w[i], s)]
             ELSE p
    IN  TLCEval([i \in 1..Len(e) |-> <<e[i][1], e[i][2], ToF32(q[i])>>])
DoSoft(L) ==
    LET S == DoSort(L)
    IN  IF S.sm \/ S.e = <<>> THEN [S EXCEPT !.sm = TRUE]
        ELSE ListOf(WithProbs(S.e), TRUE, TRUE)

\* the first n entries; the probabilities no longer add up if any were lost
Keep(L, n) ==
    IF n >= Len(L.e) THEN L
    ELSE ListOf(SubSeq(L.e, 1, n), L.so, IF Bug = "keep_flag" THEN L.sm ELSE FALSE)

Probs(L) == TLCEval([i \in 1..Len(L.e) |-> R32(L.e[i][3])])
\* least i in 1..n with P(i), or d
Least(n, P(_), d) == LET I == {i \in 1..n : P(i)}
                     IN  IF I = {} THEN d ELSE CHOOSE i \in I : \A j \in I : i <= j

---------------------------------------------------------------------------
\* Filters
TopK(c, L) ==
    LET k == IF Bug = "topk_min" THEN IMin(c.n, c.mk) ELSE IMax(c.n, c.mk)
    IN  Keep(DoSort(L), IMin(Len(L.e), k))

TopP(c, L) ==
    LET S == DoSoft(L)
        cum == CumR(Probs(S))
        p == R32(c.p)
        n == Len(S.e)
        hit(i) == (IF Bug = "topp_gt" THEN RLt(p, cum[i]) ELSE RLe(p, cum[i]))
                  /\ i >= (IF Bug = "mk_off" THEN c.mk - 1 ELSE c.mk)
    IN  Keep(S, Least(n, hit, n))

\* keep everything down to a threshold on the probabilities
Threshold(S, thr, mk) ==
    LET n == Len(S.e)
        below(i) == i > IMax(1, mk)
                    /\ (IF Bug = "thr_le" THEN RLe(R32(S.e[i][3]), thr)
                        ELSE RLt(R32(S.e[i][3]), thr))
    IN  Keep(S, Least(n, below, n + 1) - 1)
MinP(c, L) ==
    IF FEq(c.p, FZero) \/ L.e = <<>> THEN L
    ELSE LET S == DoSoft(L) IN Threshold(S, RMul(R32(c.p), R32(S.e[1][3])), c.mk)
TopA(c, L) ==
    IF FEq(c.a1, FZero) \/ FEq(c.a2, FZero) \/ L.e = <<>> THEN L
    ELSE LET S == DoSoft(L)
         IN  Threshold(S, RMul(R32(c.a1), RPow(R32(S.e[1][3]),
                                 IF Bug = "topa_sq" THEN RInt(2) ELSE R32(c.a2))), c.mk)

TailFree(c, L) ==
    IF RLe(R1, R32(c.z)) \/ Len(L.e) < 3 THEN L
    ELSE LET S == DoSoft(L)
             p == Probs(S)
             n == Len(p)
             d2 == [i \in 1..(n - 2) |->
                      LET d == RSub(RSub(p[i], p[i + 1]), RSub(p[i + 1], p[i + 2]))
                      IN  IF Bug = "tf_noabs" THEN d ELSE RAbs(d)]
             tot == SumR(d2)
             cum == CumR(d2)
             hit(i) == i > c.mk /\ RLt(R32(c.z), RDiv(cum[i], tot))
         IN  IF REq(tot, R0) THEN S
             ELSE Keep(S, Least(n - 2, hit, n + 1) - 1)

LocTyp(c, L) ==
    IF L.e = <<>> THEN L
    ELSE LET S == DoSoft(L)
             p == Probs(S)
             n == Len(p)
             H == FoldLeft(LAMBDA a, x : IF REq(x, R0) THEN a ELSE RSub(a, RMul(x, RLn(x))), R0, p)
             q == TLCEval([i \in 1..n |->
                      <<IF Bug = "lt_rank" THEN RNeg(p[i]) ELSE RAbs(RSub(RNeg(RLn(p[i])), H)), i>>])
             r == SortSeq(q, LAMBDA a, b : RLt(a[1], b[1]))
             cum == CumR([i \in 1..n |-> p[r[i][2]]])
             hit(i) == i >= c.mk /\ RLe(R32(c.p), cum[i])
             k == Least(n, hit, n)
         IN  ListOf([i \in 1..k |-> S.e[r[i][2]]], FALSE, FALSE)

---------------------------------------------------------------------------
\* Adjusters.  New(i) is the logit of entry i afterwards.
Adjust(L, New(_)) ==
    LET e == TLCEval([i \in 1..Len(L.e) |-> <<L.e[i][1], New(i), L.e[i][3]>>])
        ch == \E i \in 1..Len(e) : e[i][2] # L.e[i][2]
    IN  IF ch /\ Bug # "adj_flags" THEN ListOf(e, FALSE, FALSE)
        ELSE ListOf(e, L.so, L.sm)

Flat(c, L) ==
    LET lst == IF Bug = "flat_last" THEN Reverse(c.b) ELSE c.b
        new(i) == LET b == FirstBias(lst, L.e[i][1])
                  IN  IF b = <<>> THEN L.e[i][2] ELSE ToF32(RAdd(R32(L.e[i][2]), R32(b[1])))
    IN  Adjust(L, new)

Temp(c, L) ==
    IF FEq(c.t, FZero) THEN L
    ELSE LET new(i) == ToF32(IF Bug = "temp_mul" THEN RMul(R32(L.e[i][2]), R32(c.t))
                             ELSE RDiv(R32(L.e[i][2]), R32(c.t)))
         IN  Adjust(L, new)

InWindow(w, t) == \E i \in 1..Len(w) : w[i] = t
RepPen(c, L, h) ==
    LET w == Window(h, IF Bug = "win_off" THEN c.ln + 1 ELSE c.ln)
        pen == R32(c.pen)
        new(i) ==
            LET l == L.e[i][2]
                k == IF Bug = "rep_each" THEN Count(w, L.e[i][1]) ELSE 1
                f == IF RLt(R0, R32(l)) THEN RDiv(R1, RPow(pen, RInt(k))) ELSE RPow(pen, RInt(k))
            IN  IF ~InWindow(w, L.e[i][1]) THEN l
                ELSE IF RLt(R0, R32(l)) /\ k = 1 THEN ToF32(RDiv(R32(l), pen))
                ELSE ToF32(RMul(R32(l), f))
    IN  Adjust(L, new)

FreqPen(c, L, h) ==
    LET w == Window(h, IF Bug = "win_off" THEN c.ln + 1 ELSE c.ln)
        new(i) ==
            LET k == Count(w, L.e[i][1])
                k1 == IF Bug = "freq_once" THEN IMin(k, 1) ELSE k
            IN  IF k = 0 THEN L.e[i][2]
                ELSE ToF32(RSub(R32(L.e[i][2]), RAdd(RMul(RInt(k1), R32(c.f)), R32(c.p))))
    IN  Adjust(L, new)

SeqPen(c, L, h) ==
    LET w == Window(h, c.ln)
        hits == IF c.ml > Len(w) \div 2 THEN {}
                ELSE SeqHits(w, IF Bug = "seq_len" THEN c.ml + 1 ELSE c.ml, c.tol, c.mm)
        new(i) ==
            LET k == IF Bug = "seq_first"
                     THEN LET X == {x \in hits : x[1] = L.e[i][1]}
                          IN  IF X = {} THEN 0 ELSE (CHOOSE x \in X : \A y \in X : x[2] <= y[2])[2]
                     ELSE Longest(hits, L.e[i][1])
            IN  IF k = 0 THEN L.e[i][2]
                ELSE ToF32(RSub(R32(L.e[i][2]), RAdd(RMul(RInt(k), R32(c.s)), R32(c.f))))
    IN  Adjust(L, new)

---------------------------------------------------------------------------
\* Pickers.  The tokens that can be drawn from a list with probabilities.
Possible(L) == {i \in 1..Len(L.e) : Bug = "rand_zero" \/ ~FEq(L.e[i][3], FZero)}

Mu1(c, mu, L, i) ==
    LET s == RNeg(RLog2(R32(L.e[i][3])))
        d == RMul(R32(c.eta), RSub(s, R32(c.tau)))
    IN  ToF32(IF Bug = "mu_sign" THEN RAdd(R32(mu), d) ELSE RSub(R32(mu), d))

Miro2(mu, L) ==
    LET S == DoSoft(L)
        n == Len(S.e)
        over(i) == RLt(R32(mu), RNeg(RLog2(R32(S.e[i][3]))))
        k == IMax(1, Least(n, over, n + 1) - 1)
    IN  IF Bug = "miro2_norenorm" THEN [Keep(S, k) EXCEPT !.sm = FALSE]
        ELSE DoSoft(Keep(S, k))
Miro1(c, mu, L) ==
    LET S == DoSoft(L)
        n == Len(S.e)
        z == ZipfS([pre |-> S.e, cfg |-> c])
        s == z.s
        k == IF c.m < 2 \/ n < 2 THEN 1
             ELSE RFloor(MiroK(IF Bug = "miro1_s" THEN RAdd(s, RQ(1, 4)) ELSE s, R32(mu), c.nv))
    IN  DoSoft(Keep(S, IMin(n, IMax(1, k))))

---------------------------------------------------------------------------
Fine1(L) == [L |-> L, out |-> "ok", err |-> "", tok |-> <<>>, mu |-> 0]
Missing(L, what) == [L |-> L, out |-> "err", err |-> "missing:" \o what, tok |-> <<>>, mu |-> 0]
Mu0(c) == IF c.hmu THEN c.mu ELSE ToF32(RMul(RInt(2), R32(c.tau)))

\* every outcome of running a sampler with settings c (state mu) on list L
Outcomes(c, mu, L, r) ==
    LET at(x) == [pre |-> L.e, cfg |-> c]
    IN
    CASE c.k = "sort" -> {Fine1(DoSort(L))}
      [] c.k = "soft" -> {Fine1(DoSoft(L))}
      [] c.k = "topk" -> {Fine1(TopK(c, L))}
      [] c.k = "topp" -> {Fine1(TopP(c, L))}
      [] c.k = "minp" -> {Fine1(MinP(c, L))}
      [] c.k = "topa" -> {Fine1(TopA(c, L))}
      [] c.k = "tailfree" -> {Fine1(TailFree(c, L))}
      [] c.k = "loctyp" -> {Fine1(LocTyp(c, L))}
      [] c.k = "flat" -> {Fine1(Flat(c, L))}
      [] c.k = "temp" -> {Fine1(Temp(c, L))}
      [] c.k = "rep" ->
            IF ~RepActive(at(0)) THEN {Fine1(L)}
            ELSE IF ~r.hh THEN {Missing(L, "last_tokens")} ELSE {Fine1(RepPen(c, L, r.h))}
      [] c.k = "freq" ->
            IF ~FreqActive(at(0)) THEN {Fine1(L)}
            ELSE IF ~r.hh THEN {Missing(L, "last_tokens")} ELSE {Fine1(FreqPen(c, L, r.h))}
      [] c.k = "seqrep" ->
            IF ~SeqActive(at(0)) THEN {Fine1(L)}
            ELSE IF ~r.hh THEN {Missing(L, "last_tokens")} ELSE {Fine1(SeqPen(c, L, r.h))}
      [] c.k = "greedy" ->
            IF L.e = <<>> THEN {Fine1(L)}
            ELSE LET m == MaxLogit(L.e)
                     I == {i \in 1..Len(L.e) : FEq(L.e[i][2], m)}
                 IN  {[Fine1(L) EXCEPT !.tok = <<L.e[IF Bug = "greedy_first" THEN 1 ELSE i][1]>>] : i \in I}
      [] c.k = "rand" ->
            IF L.e = <<>> THEN {Fine1(L)}
            ELSE LET S == DoSoft(L)
                 IN  IF ~r.rng THEN {Missing(IF Bug = "rand_eats" THEN Keep(S, 1) ELSE S, "rng")}
                     ELSE {[Fine1(S) EXCEPT !.tok = <<S.e[i][1]>>] : i \in Possible(S)}
      [] c.k \in {"miro1", "miro2"} ->
            IF L.e = <<>> \/ (c.k = "miro1" /\ c.m = 0) THEN {[Fine1(L) EXCEPT !.mu = mu]}
            ELSE IF c.k = "miro1" /\ c.nv = 0
            THEN {[Missing(L, "") EXCEPT !.err = "internal", !.mu = mu]}
            ELSE LET S == IF c.k = "miro2" THEN Miro2(mu, L) ELSE Miro1(c, mu, L)
                 IN  IF ~r.rng THEN {[Missing(S, "rng") EXCEPT !.mu = mu]}
                     ELSE {[Fine1(DoSoft(S)) EXCEPT !.tok = <<S.e[i][1]>>, !.mu = Mu1(c, mu, S, i)]
                              : i \in Possible(S)}

\* what is seen of an outcome (the observations SamplerProps speaks about)
ObsOf(c, mu, L, r, o, last) ==
    [cfg |-> c, kinds |-> {c.k}, pre |-> L.e, preso |-> L.so, presm |-> L.sm,
     post |-> o.L.e, so |-> o.L.so, sm |-> o.L.sm,
     out |-> o.out, err |-> o.err, ret |-> o.tok, tok |-> o.tok,
     mu0 |-> mu, mu |-> o.mu, hasmu |-> c.k \in Miro,
     h |-> r.h, hh |-> r.hh, hist |-> r.h, rng |-> r.rng, m |-> "t", last |-> last]

Right(o) == /\ P01(o) /\ P02(o) /\ P03(o) /\ P04(o) /\ P05(o) /\ P06(o) /\ P07(o) /\ P08(o)
            /\ P09(o) /\ P10(o) /\ P11(o) /\ P12(o) /\ P13(o) /\ P15(o) /\ P16(o) /\ P17(o)
            /\ P18(o) /\ P19(o) /\ P21(o) /\ P23(o) /\ P28(o)
=============================================================================
