---------------------------- MODULE SamplerProps ----------------------------
(***************************************************************************)
(* What one run of a built-in sampler may do.  Every operator here is a    *)
(* relation over an observation o of one run:                              *)
(*   cfg   the sampler's settings          pre/preso/presm  list before    *)
(*   out   "ok" | "err" | "panic"          post/so/sm       list after     *)
(*   err   error kind                      ret  result of sample_token     *)
(*   tok   token reported afterwards       mu0/mu  Mirostat state          *)
(*   h/hh  history before / present        hist    history after           *)
(*   rng   randomness present              m  "t" sample_token, "s" sample *)
(* Tokens are <<>> (none) or <<t>>.                                        *)
(* The relations are declarative: they say which outcomes are right, not   *)
(* how to compute one (Samplers.tla does that).                            *)
(***************************************************************************)
EXTENDS CandList

Filters == {"topk", "topp", "minp", "topa", "loctyp", "tailfree"}
Adjusters == {"flat", "rep", "freq", "seqrep", "temp"}
Pickers == {"greedy", "rand", "miro1", "miro2"}
Miro == {"miro1", "miro2"}
BuiltIn == Filters \cup Adjusters \cup Pickers

Kind(o) == o.cfg.k
N(o) == Len(o.pre)
Ok(o) == o.out = "ok"
Unchanged(o) == o.post = o.pre /\ o.so = o.preso /\ o.sm = o.presm
SamePairs(o) == SeqBagEq(PairSeq(o.post), PairSeq(o.pre))

---------------------------------------------------------------------------
\* C01: tokens are conserved.  o.kinds: the kinds of the samplers the run
\* consists of (several if it is a chain).
P01(o) ==
    /\ SeqBagLe(TokSeq(o.post), TokSeq(o.pre))
    /\ o.kinds \subseteq Filters \cup Pickers => SeqBagLe(PairSeq(o.post), PairSeq(o.pre))
    /\ o.kinds \subseteq Adjusters \cup {"sort", "soft"} =>
          SeqBagEq(TokSeq(o.post), TokSeq(o.pre))
    /\ o.kinds \subseteq {"sort", "soft"} => SamePairs(o)

\* C02: flags tell the truth afterwards if they did before
P02(o) ==
    (/\ Regular(o.pre) /\ Regular(o.post)
     /\ Truthful(o.pre, o.preso, o.presm))
        => Truthful(o.post, o.so, o.sm)

---------------------------------------------------------------------------
\* C03: computing probabilities ("soft") and sorting ("sort")
Triples(e) == TLCEval([i \in 1..Len(e) |-> e[i]])
P03(o) ==
    /\ (Kind(o) = "soft" /\ Regular(o.pre) /\ Truthful(o.pre, o.preso, o.presm)) =>
          LET q == o.post
              n == Len(q)
          IN  /\ Ok(o)
              /\ SamePairs(o)
              /\ Descending(q)
              /\ q # <<>> => Softmaxed(q) /\ o.so /\ o.sm
              /\ q # <<>> => RNear(SumR([i \in 1..n |-> R32(q[i][3])]), R1,
                                   RAdd(RQe(2, -5), RMul(RInt(n), RQe(2, -7))))
              /\ \A i \in 1..n : q[i][2] = FNegInf => q[i][3] = FZero
              /\ \A i \in 1..(n - 1) : FEq(q[i][2], q[i + 1][2]) => q[i][3] = q[i + 1][3]
              /\ o.last = "soft" => Unchanged(o)
    /\ (Kind(o) = "sort" /\ NoNaN(o.pre) /\ (o.preso => Descending(o.pre))) =>
          /\ Ok(o)
          /\ SeqBagEq(Triples(o.post), Triples(o.pre))
          /\ Descending(o.post)
          /\ o.post # <<>> => o.so
          /\ o.last \in {"sort", "soft"} => o.post = o.pre

---------------------------------------------------------------------------
\* C04: filters respect min_keep, never empty a list, drop from the bottom
P04(o) ==
    (Kind(o) \in Filters /\ o.cfg.mk >= 1 /\ Regular(o.pre)) =>
        /\ Ok(o)
        /\ Len(o.post) >= IMin(o.cfg.mk, N(o))
        /\ Kind(o) = "loctyp" \/ TopSet(o.post, o.pre)

\* C05
P05(o) ==
    (Kind(o) = "topk" /\ NoNaN(o.pre)) =>
        /\ Ok(o)
        /\ Len(o.post) = IMin(N(o), IMax(o.cfg.n, o.cfg.mk))
        /\ TopSet(o.post, o.pre)

\* C06
P06(o) ==
    (Kind(o) = "topp" /\ Regular(o.pre) /\ ~FIsNaN(o.cfg.p)) =>
        LET n == N(o)
            c == Len(o.post)
            d == DescProbs(o.pre, o.presm)
            cum == CumR(d.p)
            p == R32(o.cfg.p)
            eps == IF d.exact THEN R0 ELSE MassEps(n)
            lo == IMin(n, IMax(1, o.cfg.mk))
        IN  /\ Ok(o)
            /\ TopSet(o.post, o.pre)
            /\ c >= lo
            /\ c < n => RLe(RSub(p, eps), cum[c])
            /\ (c > lo /\ c > 1) => ~(IF d.exact THEN RLe(p, cum[c - 1])
                                      ELSE RLt(RAdd(p, eps), cum[c - 1]))

\* C07: count kept by a threshold thr on the probabilities
ThresholdOK(o, d, thr, rel, exact) ==
    LET n == N(o)
        c == Len(o.post)
        base == IMin(n, IMax(1, o.cfg.mk))
        band == IF exact THEN R0 ELSE RAdd(RMul(RAbs(thr), rel), R10(-42))
        sure == Cardinality({i \in 1..n : RLe(RAdd(thr, band), d.p[i])})
        maybe == Cardinality({i \in 1..n : RLe(RSub(thr, band), d.p[i])})
    IN  /\ c >= IMax(base, sure)
        /\ c <= IMax(base, maybe)

P07(o) ==
    /\ (Kind(o) = "minp" /\ FEq(o.cfg.p, FZero)) => Ok(o) /\ Unchanged(o)
    /\ (Kind(o) = "topa" /\ (FEq(o.cfg.a1, FZero) \/ FEq(o.cfg.a2, FZero)))
          => Ok(o) /\ Unchanged(o)
    /\ (Kind(o) = "minp" /\ Regular(o.pre) /\ o.pre # <<>> /\ ~FIsNaN(o.cfg.p)
           /\ ~FEq(o.cfg.p, FZero)) =>
        LET d == DescProbs(o.pre, o.presm)
            p == R32(o.cfg.p)
        IN  /\ Ok(o)
            /\ TopSet(o.post, o.pre)
            /\ ThresholdOK(o, d, RMul(p, d.p[1]), RQe(2, -5), d.exact /\ RIsDyadic(p, 10))
    /\ (Kind(o) = "topa" /\ Regular(o.pre) /\ o.pre # <<>>
           /\ FIsFinite(o.cfg.a1) /\ FIsFinite(o.cfg.a2)
           /\ ~FEq(o.cfg.a1, FZero) /\ ~FEq(o.cfg.a2, FZero)) =>
        LET d == DescProbs(o.pre, o.presm)
            a1 == R32(o.cfg.a1)
            a2 == R32(o.cfg.a2)
            thr == RMul(a1, RPow(d.p[1], a2))
        IN  /\ Ok(o)
            /\ TopSet(o.post, o.pre)
            /\ RIsNaN(thr) \/
               ThresholdOK(o, d, thr, RMul(SoftRel(N(o)), RAdd(R1, RAbs(a2))),
                           /\ d.exact /\ RIsDyadic(thr, 20) /\ RIsDyadic(a1, 8)
                           /\ \/ REq(a2, R1) \/ REq(a2, RInt(2)))
    /\ (Kind(o) \in {"minp", "topa"} /\ o.pre = <<>>) => Ok(o) /\ o.post = <<>>

\* C08
P08(o) ==
    (Kind(o) = "loctyp" /\ Regular(o.pre) /\ ~FIsNaN(o.cfg.p)) =>
        LET n == N(o)
            e == o.pre
            r == Softmax(e)
            H == FoldLeftDomain(LAMBDA a, i :
                     IF REq(r[i], R0) THEN a ELSE RSub(a, RMul(r[i], RLn(r[i]))), R0, r)
            score == TLCEval([i \in 1..n |-> RAbs(RSub(RNeg(RLn(r[i])), H))])
            tiny(i) == RLt(r[i], R10(-36))
            \* allowance on a score: rounding of ln p and of the entropy
            se == RAdd(RQe(5, -5), RMul(RInt(n), RQe(4, -7)))
            kept == Pairs(o.post)
            K == {i \in 1..n : <<e[i][1], e[i][2]>> \in kept}
            D == {i \in 1..n : <<e[i][1], e[i][2]>> \notin kept}
            mass == FoldLeft(LAMBDA a, i : RAdd(a, r[i]), R0, SetToSeq(K))
            most(X) == FoldLeft(LAMBDA a, i : RMax(a, score[i]), R0, SetToSeq(X))
            least(X) == FoldLeft(LAMBDA a, i : RMin(a, score[i]), R32(FPosInf), SetToSeq(X))
            worst == most(K)
            p == R32(o.cfg.p)
            lo == IMin(n, IMax(1, o.cfg.mk))
            c == Len(o.post)
        IN  /\ Ok(o)
            /\ Cardinality(kept) <= c              \* (has TLC sort it first)
            /\ SeqBagLe(PairSeq(o.post), PairSeq(o.pre))
            /\ c >= lo
            /\ Distinct(e) =>
                 \* ranked by typicality
                 /\ RLe(most({i \in K : ~tiny(i)}), RAdd(least(D), RMul(RInt(2), se)))
                 /\ RLe(worst, RAdd(least({j \in D : ~tiny(j)}), RMul(RInt(2), se)))
                 \* mass reached
                 /\ c < n => RLe(RSub(p, MassEps(n)), mass)
                 \* shortest: without its last-ranked token it would not do
                 /\ (c > lo) =>
                       \E i \in K : /\ \/ RLe(worst, RAdd(score[i], RMul(RInt(2), se)))
                                       \/ tiny(i)
                                    /\ RLe(RSub(mass, r[i]), RAdd(p, MassEps(n)))

\* C09
P09(o) ==
    (Kind(o) = "tailfree" /\ Regular(o.pre) /\ ~FIsNaN(o.cfg.z)) =>
        LET n == N(o)
            c == Len(o.post)
            z == R32(o.cfg.z)
            mk == o.cfg.mk
        IN  /\ Ok(o)
            /\ TopSet(o.post, o.pre)
            /\ IF RLe(R1, z) \/ n < 3
               THEN SamePairs(o)
               ELSE LET d == DescProbs(o.pre, o.presm)
                        d2 == TLCEval([i \in 1..(n - 2) |->
                                RAbs(RSub(RSub(d.p[i], d.p[i + 1]),
                                          RSub(d.p[i + 1], d.p[i + 2])))])
                        S == SumR(d2)
                        cum == CumR(d2)
                        exact == d.exact /\ RIsPow2(S) /\ RIsDyadic(z, 12)
                        eps == IF exact THEN R0
                               ELSE RAdd(R10(-6), RDiv(RAdd(R10(-6), RMul(RInt(n), RQe(2, -7))), S))
                        frac(i) == RDiv(cum[i], S)
                        flat == FEq(FSortDesc(Logits(o.pre))[1], FSortDesc(Logits(o.pre))[n])
                                \/ (d.exact /\ REq(S, R0))
                    IN  IF flat THEN SamePairs(o)
                        ELSE IF RLt(S, R10(-7)) THEN TRUE   \* rounding noise decides
                        ELSE /\ \A i \in IMax(1, IMin(n, mk) + 1)..IMin(c, n - 2) :
                                   ~RLt(RAdd(z, eps), frac(i))
                             /\ c < n => /\ c >= mk
                                         /\ c <= n - 3
                                         /\ IF exact THEN RLt(z, frac(c + 1))
                                            ELSE RLt(RSub(z, eps), frac(c + 1))

---------------------------------------------------------------------------
\* Mirostat: draw and feedback shared by both versions
MuOK(o) ==
    LET r == Softmax(o.post)
        i == CHOOSE j \in 1..Len(o.post) : o.post[j][1] = o.tok[1]
        s == RNeg(RLog2(r[i]))
        eta == R32(o.cfg.eta)
        tau == R32(o.cfg.tau)
        mu0 == R32(o.mu0)
        step == RMul(eta, RSub(s, tau))
        big == RPow(RInt(10), RInt(30))
        tol == RAdd(RMul(RAbs(eta), RAdd(R10(-4), RMul(RInt(N(o)), RQe(2, -7)))),
                    RMul(RQe(4, -6), RAdd(RAbs(mu0), RMul(RAbs(eta), RAdd(s, RAbs(tau))))))
    IN  \/ ~(RLt(RAbs(mu0), big) /\ RLt(RAbs(step), big) /\ RLt(RAbs(tau), big))
        \/ RLt(r[i], R10(-30))
        \/ RNear(R32(o.mu), RSub(mu0, step), tol)

DrawOK(o) ==
    /\ o.m = "t" => o.ret = o.tok
    /\ Len(o.tok) = 1
    /\ \E i \in 1..Len(o.post) : o.post[i][1] = o.tok[1] /\ o.post[i][2] # FNegInf
    /\ Distinct(o.pre) => MuOK(o)

MiroIdle(o) == o.tok = <<>> /\ o.ret = <<>> /\ o.mu = o.mu0

\* C10
P10(o) ==
    (Kind(o) = "miro2" /\ o.hasmu) =>
        /\ o.out = "err" => MiroIdle(o)
        /\ o.pre = <<>> => Ok(o) /\ MiroIdle(o) /\ o.post = <<>>
        /\ (o.pre # <<>> /\ Regular(o.pre) /\ o.rng /\ ~FIsNaN(o.mu0)) =>
            LET n == N(o)
                d == DescProbs(o.pre, o.presm)
                c == Len(o.post)
                mu == R32(o.mu0)
                s(i) == RNeg(RLog2(d.p[i]))
                exact == d.exact /\ \A i \in 1..n : REq(d.p[i], R0) \/ RIsPow2(d.p[i])
                band(i) == IF exact THEN R0
                           ELSE IF RLt(d.p[i], R10(-36)) THEN RInt(2)
                           ELSE RAdd(R10(-4), RMul(RInt(n), RQe(2, -7)))
                sure == Cardinality({i \in 1..n : RLt(mu, RSub(s(i), band(i)))})
                maybe == Cardinality({i \in 1..n : \/ RLt(mu, RAdd(s(i), band(i)))
                                                   \/ RLt(d.p[i], R10(-43))})
            IN  /\ Ok(o)
                /\ TopSet(o.post, o.pre)
                /\ c >= IMax(1, n - maybe)
                /\ c <= IMax(1, n - sure)
                /\ DrawOK(o)

\* C11
ZipfS(o) ==
    LET ls == FSortDesc(Logits(o.pre))
        w == IMin(o.cfg.m - 1, Len(ls) - 1)
        t == TLCEval([i \in 1..w |-> RLn(RQ(i + 1, i))])
        num == FoldLeftDomain(LAMBDA a, i : RAdd(a, RMul(t[i], RSub(R32(ls[i]), R32(ls[i + 1])))), R0, t)
        den == FoldLeftDomain(LAMBDA a, i : RAdd(a, RMul(t[i], t[i])), R0, t)
    IN  [w |-> w, s |-> RDiv(num, den),
         deep |-> RLt(RSub(R32(ls[w + 1]), R32(ls[1])), RInt(-80))]
MiroK(s, mu, nv) ==
    LET e == RSub(s, R1)
    IN  RPow(RDiv(RMul(e, RPow(RInt(2), mu)), RSub(R1, RPow(RInt(nv), RNeg(e)))), RDiv(R1, s))

P11(o) ==
    (Kind(o) = "miro1" /\ o.hasmu) =>
        /\ o.out = "err" => MiroIdle(o)
        /\ (o.pre = <<>> \/ o.cfg.m = 0) =>
              MiroIdle(o) /\ SamePairs(o) /\ (Ok(o) \/ o.cfg.nv = 0)
        /\ (o.pre # <<>> /\ o.cfg.m > 0 /\ o.cfg.nv = 0) => o.out = "err"
        /\ (o.pre # <<>> /\ o.cfg.m > 0 /\ o.cfg.nv > 0 /\ Regular(o.pre) /\ o.rng
               /\ ~FIsNaN(o.mu0)) =>
            /\ Ok(o)
            /\ o.post # <<>>
            /\ TopSet(o.post, o.pre)
            /\ DrawOK(o)
            /\ (o.cfg.m > 1 /\ N(o) > 1 /\ o.cfg.nv > 1) =>
                LET z == ZipfS(o)
                    s == z.s
                    \* rounding in the sums grows with their length
                    ds == RMul(RAdd(RQe(2, -5), RMul(RInt(z.w), RQe(12, -8))), RAdd(R1, RAbs(s)))
                    mu == R32(o.mu0)
                    nv == o.cfg.nv
                    k0 == MiroK(s, mu, nv)
                    k1 == MiroK(RSub(s, ds), mu, nv)
                    k2 == MiroK(RAdd(s, ds), mu, nv)
                    klo == RMul(RMin(k0, RMin(k1, k2)), RSub(R1, R10(-3)))
                    khi == RMul(RMax(k0, RMax(k1, k2)), RAdd(R1, R10(-3)))
                    good == /\ ~z.deep
                            /\ RIsFinite(s) /\ RLe(RQ(1, 20), s)
                            /\ RLe(RQ(1, 50), RAbs(RSub(s, R1)))
                            /\ RLt(RAbs(mu), RInt(100))
                            /\ ~RIsNaN(klo) /\ ~RIsNaN(khi)
                IN  good => /\ Len(o.post) >= IMin(N(o), IMax(1, RFloor(klo)))
                            /\ Len(o.post) <= IMin(N(o), IMax(1, RFloor(khi)))

\* C12
P12(o) ==
    (Kind(o) = "greedy" /\ NoNaN(o.pre)
       /\ (o.preso => Descending(o.pre))) =>
        /\ Ok(o)
        /\ Unchanged(o)
        /\ o.m = "t" => o.ret = o.tok
        /\ IF o.pre = <<>> THEN o.tok = <<>>
           ELSE /\ Len(o.tok) = 1
                /\ \E i \in 1..N(o) : /\ o.pre[i][1] = o.tok[1]
                                      /\ FEq(o.pre[i][2], MaxLogit(o.pre))

\* C13, for one run
P13(o) ==
    (Kind(o) = "rand" /\ Regular(o.pre)) =>
        /\ SamePairs(o)
        /\ o.pre = <<>> => Ok(o) /\ o.tok = <<>> /\ o.ret = <<>>
        /\ (o.pre # <<>> /\ o.rng) =>
              /\ Ok(o)
              /\ o.m = "t" => o.ret = o.tok
              /\ Len(o.tok) = 1
              \* never a token whose probability is zero, even after rounding to f32
              /\ \E i \in 1..N(o) :
                    /\ o.pre[i][1] = o.tok[1]
                    /\ RLt(RInt(-104), RSub(R32(o.pre[i][2]), R32(MaxLogit(o.pre))))

---------------------------------------------------------------------------
\* Adjusters.  exp(i) is the expected logit of entry i, as a predicate on
\* the bit pattern found; entries are matched by position, or by token id if
\* the ids are distinct.
Adjusted(o, Right(_, _)) ==
    IF TokSeq(o.post) = TokSeq(o.pre)
    THEN \A i \in 1..N(o) : Right(i, o.post[i][2])
    ELSE /\ Distinct(o.pre)
         /\ SeqBagEq(TokSeq(o.post), TokSeq(o.pre))
         /\ \A i \in 1..N(o) : \E j \in 1..N(o) :
               o.post[j][1] = o.pre[i][1] /\ Right(i, o.post[j][2])

Window(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))

\* C15
FirstBias(b, t) ==
    LET I == {i \in 1..Len(b) : b[i][1] = t}
    IN  IF I = {} THEN <<>> ELSE <<b[CHOOSE i \in I : \A j \in I : i <= j][2]>>
P15(o) ==
    Kind(o) = "flat" =>
        /\ Ok(o)
        /\ TokSeq(o.post) = TokSeq(o.pre)
        /\ \A i \in 1..N(o) :
              LET b == FirstBias(o.cfg.b, o.pre[i][1])
              IN  IF b = <<>> THEN o.post[i][2] = o.pre[i][2]
                  ELSE FSame(o.post[i][2], ToF32(RAdd(R32(o.pre[i][2]), R32(b[1]))))

\* an f32 result that should be x, from operands of the given magnitude
RoundOK(b, x, mag) ==
    \/ FIsNaN(b) /\ RIsNaN(x)
    \/ FSame(b, ToF32(x))
    \/ RIsFinite(mag) /\ RLe(RAbs(RSub(R32(b), x)), RAdd(RMul(mag, RQe(4, -7)), R10(-44)))

\* C16
RepActive(o) == o.pre # <<>> /\ o.cfg.ln > 0 /\ RLt(R1, R32(o.cfg.pen))
P16(o) ==
    (Kind(o) = "rep" /\ ~FIsNaN(o.cfg.pen)) =>
        /\ ~RepActive(o) => Ok(o) /\ PairSeq(o.post) = PairSeq(o.pre)
        /\ (RepActive(o) /\ o.hh) =>
            LET w == Window(o.h, o.cfg.ln)
                S == {w[i] : i \in 1..Len(w)}
                pen == R32(o.cfg.pen)
                right(i, b) ==
                    LET l == o.pre[i][2]
                    IN  IF o.pre[i][1] \notin S THEN b = l
                        ELSE IF FIsNaN(l) THEN FIsNaN(b)
                        ELSE LET x == IF RLt(R0, R32(l)) THEN RDiv(R32(l), pen) ELSE RMul(R32(l), pen)
                             IN  RoundOK(b, x, RAbs(x))
            IN  Ok(o) /\ Adjusted(o, right)

\* C17
FreqActive(o) == /\ o.pre # <<>> /\ o.cfg.ln > 0
                 /\ ~(FEq(o.cfg.f, FZero) /\ FEq(o.cfg.p, FZero))
P17(o) ==
    Kind(o) = "freq" =>
        /\ ~FreqActive(o) => Ok(o) /\ PairSeq(o.post) = PairSeq(o.pre)
        /\ (FreqActive(o) /\ o.hh) =>
            LET w == Window(o.h, o.cfg.ln)
                f == R32(o.cfg.f)
                p == R32(o.cfg.p)
                right(i, b) ==
                    LET l == R32(o.pre[i][2])
                        c == Count(w, o.pre[i][1])
                        cf == RMul(RInt(c), f)
                        x == RSub(l, RAdd(cf, p))
                        mag == RAdd(RAbs(l), RAdd(RAbs(cf), RAbs(p)))
                    IN  IF c = 0 THEN b = o.pre[i][2] ELSE RoundOK(b, x, mag)
            IN  Ok(o) /\ Adjusted(o, right)

\* C18.  Which tokens continue a repeat of the end of window w, and how long
\* the repeated sequence is (that token included): a set of <<token, length>>.
RECURSIVE SeqWalk(_, _, _, _, _, _, _)
\* position in w of the last token of a match of the final nl tokens of w
\* (needle) read from position h at needle index j, or 0
SeqWalk(w, nl, h, j, tol, win, mm) ==
    IF h > Len(w) THEN 0
    ELSE IF w[h] = w[Len(w) - nl + j]
         THEN IF j = nl THEN h ELSE SeqWalk(w, nl, h + 1, j + 1, tol, 1, mm)
    ELSE IF win > 1 THEN SeqWalk(w, nl, h + 1, j, tol, win - 1, mm)
    ELSE IF tol = 0 \/ j = nl THEN 0
    ELSE SeqWalk(w, nl, h + 1, j + 1, tol - 1, IMax(1, mm), mm)

SeqHits(w, ml, tol, mm) ==
    LET W == Len(w)
        cand == {<<a, nl>> \in (1..W) \X (ml..(W - ml)) :
                    nl < W - a + 1 /\ w[a] = w[W - nl + 1]}
        ends == {<<x[1], SeqWalk(w, x[2], x[1], 1, tol, 1, mm)>> : x \in cand}
    IN  IF W < 2 * ml THEN {}
        ELSE {<<w[x[2] + 1], x[2] - x[1] + 2>> : x \in {y \in ends : y[2] # 0 /\ y[2] < W}}

\* the same for tolerance 0, said declaratively
RECURSIVE Common(_, _, _)
\* how many tokens ending at position i agree with the end of w
Common(w, i, k) == IF k < i /\ w[i - k] = w[Len(w) - k] THEN Common(w, i, k + 1) ELSE k
Longest(hits, t) ==
    LET L == {x[2] : x \in {y \in hits : y[1] = t}}
    IN  IF L = {} THEN 0 ELSE CHOOSE m \in L : \A k \in L : k <= m

Longest0(w, ml, t) ==
    LET W == Len(w)
        L == {IMin(Common(w, i, 0), W - ml) + 1 :
                 i \in {j \in 1..(W - 1) : w[j + 1] = t /\ Common(w, j, 0) >= ml}}
    IN  IF W < 2 * ml \/ L = {} THEN 0 ELSE CHOOSE m \in L : \A k \in L : k <= m

SeqActive(o) == /\ o.pre # <<>>
                /\ ~(FEq(o.cfg.f, FZero) /\ FEq(o.cfg.s, FZero))
                /\ o.cfg.ml >= 2 /\ o.cfg.ln >= o.cfg.ml
P18(o) ==
    Kind(o) = "seqrep" =>
        /\ ~SeqActive(o) => Ok(o) /\ PairSeq(o.post) = PairSeq(o.pre)
        /\ (SeqActive(o) /\ o.hh /\ Distinct(o.pre)) =>
            LET w == Window(o.h, o.cfg.ln)
                short == o.cfg.ml > Len(w) \div 2
                hits == IF short \/ o.cfg.tol = 0 THEN {}
                        ELSE SeqHits(w, o.cfg.ml, o.cfg.tol, o.cfg.mm)
                long(t) == IF short THEN 0
                           ELSE IF o.cfg.tol = 0 THEN Longest0(w, o.cfg.ml, t)
                           ELSE Longest(hits, t)
                f == R32(o.cfg.f)
                s == R32(o.cfg.s)
                right(i, b) ==
                    LET l == R32(o.pre[i][2])
                        c == long(o.pre[i][1])
                        cs == RMul(RInt(c), s)
                        x == RSub(l, RAdd(cs, f))
                        mag == RAdd(RAbs(l), RAdd(RAbs(cs), RAbs(f)))
                    IN  IF c = 0 THEN b = o.pre[i][2] ELSE RoundOK(b, x, mag)
            IN  Ok(o) /\ Adjusted(o, right)

\* C19
P19(o) ==
    (Kind(o) = "temp" /\ ~FIsNaN(o.cfg.t)) =>
        /\ Ok(o)
        /\ FEq(o.cfg.t, FZero) => Unchanged(o)
        /\ ~FEq(o.cfg.t, FZero) =>
            LET t == R32(o.cfg.t)
                right(i, b) == RoundOK(b, RDiv(R32(o.pre[i][2]), t), RAbs(RDiv(R32(o.pre[i][2]), t)))
            IN  Adjusted(o, right)

---------------------------------------------------------------------------
\* C21, for one run: no token, or one of this run's list
P21(o) ==
    /\ \A t \in {o.tok, o.ret} : t = <<>> \/ t[1] \in Tokens(o.pre)
    /\ ~Ok(o) => o.ret = <<>>

---------------------------------------------------------------------------
\* C23: which resource a run needs
Needs(o) ==
    CASE Kind(o) = "rand" -> IF o.pre # <<>> THEN {"rng"} ELSE {}
      [] Kind(o) = "miro2" -> IF o.pre # <<>> THEN {"rng"} ELSE {}
      [] Kind(o) = "miro1" -> IF o.pre # <<>> /\ o.cfg.m > 0 /\ o.cfg.nv > 0 THEN {"rng"} ELSE {}
      [] Kind(o) = "rep" -> IF RepActive(o) THEN {"last_tokens"} ELSE {}
      [] Kind(o) = "freq" -> IF FreqActive(o) THEN {"last_tokens"} ELSE {}
      [] Kind(o) = "seqrep" -> IF SeqActive(o) THEN {"last_tokens"} ELSE {}
      [] OTHER -> {}
Has(o) == (IF o.rng THEN {"rng"} ELSE {}) \cup (IF o.hh THEN {"last_tokens"} ELSE {})
P23(o) ==
    /\ o.hist = o.h
    /\ (Kind(o) \in BuiltIn /\ (Regular(o.pre) \/ Kind(o) \in {"rep", "freq", "seqrep"})) =>
        LET missing == Needs(o) \ Has(o)
        IN  IF missing = {} THEN o.err \notin {"missing:rng", "missing:last_tokens"}
            ELSE /\ o.out = "err"
                 /\ \E m \in missing : o.err = "missing:" \o m
                 /\ Kind(o) \in Miro \/ SamePairs(o)
                 /\ o.tok = <<>> /\ o.ret = <<>>
                 /\ o.mu = o.mu0

\* C28
P28(o) == o.out \in {"ok", "err"}
=============================================================================
