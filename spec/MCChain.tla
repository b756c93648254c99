------------------------------- MODULE MCChain -------------------------------
(***************************************************************************)
(* Chains of samplers as trees, run one run after the other.  A chain      *)
(* keeps the token of its latest run; so does every sampler in it.  The    *)
(* same samplers are also run one by one without any chain, and after      *)
(* every run both must have produced the same (C20); no token is ever left *)
(* over (C21); the pre-sampling hook visits every sampler once (C29).      *)
(* Every tree with every plan of lists is printed and replayed.            *)
(***************************************************************************)
EXTENDS Samplers, Json

CONSTANTS Prop, Size, Emit

VARIABLES tree,    \* the chain: [k: "leaf", i, n, tok] or [k: "chain", mem, tok]
          flat,    \* its samplers on their own
          lc, lf,  \* the lists of the chain and of the samplers on their own
          plan,    \* where the list of each run came from
          last     \* [chain, flat]: outcomes of the latest run, or <<>>
vars == <<tree, flat, lc, lf, plan, last>>

R == [rng |-> FALSE, hh |-> TRUE, h |-> <<10, 11, 10, 11>>]
F(n, m) == ToF32(RQ(n, m))
Leafs ==
    IF Prop = "C29" THEN [i \in 1..(IF Size = 1 THEN 5 ELSE 7) |-> [k |-> "spy", acts |-> <<"first">>]]
    ELSE <<[k |-> "greedy"],
           [k |-> "topk", n |-> 2, mk |-> 1],
           [k |-> "flat", b |-> <<<<10, F(3, 1)>>, <<22, F(2, 1)>>>>],
           [k |-> "rand"],
           [k |-> "spy", acts |-> <<"first", "fail">>]>>
         \o IF Size = 1 THEN <<>>
            ELSE <<[k |-> "rep", pen |-> F(2, 1), ln |-> 3]>>
\* lists by name: the ids differ between fresh lists, so that a token left over
\* from an earlier run shows
Lists(name) ==
    CASE name = "one" -> ListOf(<<<<10, F(1, 1), 0>>, <<11, F(3, 1), 0>>, <<12, F(2, 1), 0>>>>, FALSE, FALSE)
      [] name = "two" -> ListOf(<<<<22, F(1, 1), 0>>, <<21, F(2, 1), 0>>>>, FALSE, FALSE)
      [] name = "empty" -> ListOf(<<>>, FALSE, FALSE)

---------------------------------------------------------------------------
Leaf(i) == [k |-> "leaf", i |-> i, n |-> 0, tok |-> <<>>]
Chain(m) == [k |-> "chain", mem |-> m, tok |-> <<>>]
Seqs(A, n) == UNION {[1..i -> A] : i \in 0..n}
Leaves == {Leaf(i) : i \in 1..Len(Leafs)}
Inner == {Chain(m) : m \in Seqs(Leaves, 2)}
Trees == {Chain(m) : m \in Seqs(Leaves \cup Inner, 2)}
         \cup IF Size = 1 THEN {}
              ELSE {Chain(m) : m \in [1..3 -> {Leaf(i) : i \in 1..5} \cup {Chain(m) : m \in Seqs({Leaf(i) : i \in 1..3}, 1)}]}
                   \cup {Chain(<<Chain(<<Chain(m)>>)>>) : m \in Seqs(Leaves, 2)}
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF t.k = "leaf" THEN <<t>>
               ELSE FoldLeft(LAMBDA a, m : a \o LeavesOf(m), <<>>, t.mem)

Spy(x, act, X) ==
    CASE act = "first" -> [Fine1(X) EXCEPT !.tok = IF X.e = <<>> THEN <<>> ELSE <<X.e[1][1]>>]
      [] act = "fail" -> [Fine1(X) EXCEPT !.out = "err", !.err = "internal"]
RunLeaf(t, X) ==
    LET c == Leafs[t.i]
        o == IF c.k = "spy" THEN Spy(t, c.acts[(t.n % Len(c.acts)) + 1], X)
             ELSE CHOOSE x \in Outcomes(c, 0, X, R) : TRUE
    IN  [node |-> [t EXCEPT !.n = @ + 1,
                            !.tok = IF Bug = "leaf_stale" /\ o.out = "err" THEN @ ELSE o.tok],
         L |-> o.L, out |-> o.out, err |-> o.err]
RECURSIVE Run(_, _)
Run(t, X) ==
    IF t.k = "leaf" THEN RunLeaf(t, X)
    ELSE LET go(acc, m) ==
                 IF acc.out = "err" /\ Bug # "no_stop" THEN [acc EXCEPT !.mem = Append(@, m)]
                 ELSE LET r == Run(m, acc.L)
                      IN  [mem |-> Append(acc.mem, r.node), L |-> r.L,
                           out |-> r.out, err |-> r.err,
                           tok |-> IF Bug = "any_tok" /\ r.node.tok = <<>> THEN acc.tok ELSE r.node.tok]
             a == FoldLeft(go, [mem |-> <<>>, L |-> X, out |-> "ok", err |-> "", tok |-> <<>>], t.mem)
         IN  [node |-> [k |-> "chain", mem |-> a.mem,
                        tok |-> IF a.out = "ok" THEN a.tok
                                ELSE IF Bug = "chain_stale" THEN t.tok ELSE <<>>],
              L |-> a.L, out |-> a.out, err |-> a.err]
\* the samplers one after the other, stopping at the first error
RunFlat(fs, X) ==
    LET go(acc, t) ==
            IF acc.out = "err" THEN [acc EXCEPT !.fs = Append(@, t)]
            ELSE LET r == RunLeaf(t, acc.L)
                 IN  [fs |-> Append(acc.fs, r.node), L |-> r.L, out |-> r.out, err |-> r.err, tok |-> r.node.tok]
    IN  FoldLeft(go, [fs |-> <<>>, L |-> X, out |-> "ok", err |-> "", tok |-> <<>>], fs)

RECURSIVE EmptyEnd(_)
EmptyEnd(t) == t.k = "chain" /\ (t.mem = <<>> \/ EmptyEnd(t.mem[Len(t.mem)]))

---------------------------------------------------------------------------
Init ==
    /\ tree \in Trees
    /\ flat = LeavesOf(tree)
    /\ lc = Lists("one") /\ lf = lc
    /\ plan = <<"one">>
    /\ last = <<>>
Do ==
    /\ last = <<>>
    /\ LET c == Run(tree, lc)
           f == RunFlat(flat, lf)
       IN  /\ tree' = c.node /\ lc' = c.L
           /\ flat' = f.fs /\ lf' = f.L
           /\ last' = <<[c |-> c, f |-> f, pre |-> lc]>>
    /\ UNCHANGED plan
Fresh ==
    /\ last # <<>> /\ Len(plan) < (IF Prop = "C29" THEN 1 ELSE 2)
    /\ \E p \in {"same", "two", "empty"} :
          /\ plan' = Append(plan, p)
          /\ lc' = IF p = "same" THEN lc ELSE Lists(p)
          /\ lf' = IF p = "same" THEN lf ELSE Lists(p)
    /\ last' = <<>>
    /\ UNCHANGED <<tree, flat>>
Next == Do \/ Fresh
Spec == Init /\ [][Next]_vars

TypeOK == last = <<>> \/ last[1].c.out \in {"ok", "err"}
OneByOne ==
    last # <<>> =>
        LET c == last[1].c
            f == last[1].f
        IN  /\ c.out = f.out /\ c.err = f.err /\ c.L = f.L
            /\ LeavesOf(tree) = flat
            /\ c.out = "ok" => tree.tok = IF EmptyEnd(tree) THEN <<>> ELSE f.tok
Latest ==
    last # <<>> =>
        /\ tree.tok # <<>> => tree.tok[1] \in Tokens(last[1].pre.e)
        /\ last[1].c.out = "err" => tree.tok = <<>>
        /\ \A i \in 1..Len(flat) : flat[i].tok # <<>> /\ flat[i].n > 0 =>
              \/ flat[i].tok[1] \in Tokens(last[1].pre.e)
              \/ \E j \in 1..(i - 1) : flat[j].n > flat[i].n   \* not run this time
\* the hook goes to every sampler in order
RECURSIVE Hook(_)
Hook(t) == IF t.k = "leaf" THEN <<t.i>>
           ELSE FoldLeft(LAMBDA a, m : a \o (IF Bug = "hook_once" /\ m.k = "chain" /\ m.mem # <<>>
                                             THEN Hook(m.mem[1]) ELSE Hook(m)), <<>>, t.mem)
HookAll == Hook(tree) = [i \in 1..Len(LeavesOf(tree)) |-> LeavesOf(tree)[i].i]

RECURSIVE Shape(_)
Shape(t) == IF t.k = "leaf" THEN [i |-> t.i, mem |-> <<>>]
            ELSE [i |-> 0, mem |-> [j \in 1..Len(t.mem) |-> Shape(t.mem[j])]]
Emitted ==
    /\ (Emit /\ tree = Chain(<<>>) /\ last = <<>>) => PrintT("MENU " \o ToJson(Leafs))
    /\ (Emit /\ last = <<>> /\ Len(plan) = (IF Prop = "C29" THEN 1 ELSE 2)) =>
           PrintT("BEH " \o ToJson([tree |-> Shape(tree), plan |-> plan]))
=============================================================================
