-------------------------------- MODULE MCMiro --------------------------------
(***************************************************************************)
(* A Mirostat sampler over several steps: mu is carried from each step to  *)
(* the next, whatever is drawn, and steps that fail or find an empty list  *)
(* leave it alone.  Every draw is explored.  The step sequences are        *)
(* printed and replayed on one real sampler with several random streams.   *)
(***************************************************************************)
EXTENDS Samplers, Json

CONSTANTS Prop, Size, Emit

VARIABLES c, mu, path, obs, sum
vars == <<c, mu, path, obs, sum>>

F(n, m) == ToF32(RQ(n, m))
Kd == IF Prop = "C10" THEN "miro2" ELSE "miro1"
Exact(w, tot) ==
    ListOf([i \in 1..Len(w) |-> <<20 + i, IF w[i] = 0 THEN FNegInf ELSE ToF32(RLn(RQ(w[i], tot))), 0>>], FALSE, FALSE)
Steps == <<[L |-> Exact(<<8, 4, 2, 1, 1>>, 16), rng |-> TRUE],
           [L |-> Exact(<<0, 1, 3, 1, 3>>, 8), rng |-> TRUE],
           [L |-> ListOf(<<>>, FALSE, FALSE), rng |-> TRUE],
           [L |-> Exact(<<1, 2, 1>>, 4), rng |-> FALSE],
           [L |-> Exact(<<5, 5, 3, 3>>, 16), rng |-> TRUE]>>
Cfgs == {[k |-> Kd, tau |-> t, eta |-> e, hmu |-> h # <<>>, mu |-> IF h = <<>> THEN 0 ELSE h[1], m |-> m, nv |-> 50] :
            t \in {F(1, 1), F(2, 1)}, e \in {F(1, 2), F(2, 1)},
            h \in IF Size = 1 THEN {<<>>, <<F(1, 1)>>} ELSE {<<>>, <<F(1, 1)>>, <<FZero>>, <<F(-3, 1)>>},
            m \in IF Kd = "miro2" THEN {100} ELSE {100, 2}}
Depth == 3
NS == IF Size = 1 THEN 4 ELSE 5

Init == /\ c \in Cfgs /\ mu = Mu0(c) /\ path = <<>> /\ obs = <<>> /\ sum = R0
Step ==
    /\ Len(path) < Depth
    /\ \E j \in 1..NS :
          LET s == Steps[j]
              r == [rng |-> s.rng, hh |-> FALSE, h |-> <<>>]
          IN  \E o \in Outcomes(c, mu, s.L, r) :
                /\ obs' = <<ObsOf(c, mu, s.L, r, o, "new")>>
                /\ mu' = IF Bug = "mu_lost" THEN Mu0(c) ELSE o.mu
                /\ path' = Append(path, j)
                \* total of surprise minus tau over the steps that drew
                /\ sum' = IF o.tok = <<>> THEN sum
                          ELSE LET i == CHOOSE x \in 1..Len(o.L.e) : o.L.e[x][1] = o.tok[1]
                               IN  RAdd(sum, RSub(RNeg(RLog2(R32(o.L.e[i][3]))), R32(c.tau)))
    /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars

TypeOK == Len(path) <= Depth
AllRight == obs # <<>> => Right(obs[1])
\* over any history, mu has moved by minus eta times that total
Steered == RLe(RAbs(RSub(R32(mu), RSub(R32(Mu0(c)), RMul(R32(c.eta), sum)))), R10(-4))
Emitted == (Emit /\ Len(path) = Depth) =>
              PrintT("BEH " \o ToJson([cfg |-> c, path |-> path])) /\ (path = [i \in 1..Depth |-> 1] =>
              PrintT("MENU " \o ToJson(Steps)))
=============================================================================
