-------------------------------- MODULE Shared --------------------------------
(***************************************************************************)
(* What a log of threads using one shared sampler may look like.  Entries: *)
(*  [e: "exec", th, how: "pick" | "fail" | "panic", tok, overlap]  written *)
(*     while the sampler is held,                                          *)
(*  [e: "ret", th, route, out: "ok" | "err" | "panic", ret]  when a run    *)
(*     asked for by thread th returns,                                     *)
(*  [e: "ask", th]  before thread th reads the token or invokes the hook,  *)
(*  [e: "hooked", th]  when the hook reaches the sampler,                  *)
(*  [e: "tok" | "hook", th, route, out, ret]  afterwards.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* executions belonging to the run that returned at i
ExecsOf(TV, i) ==
    LET th == TV[i].th
        prev == {j \in 1..(i - 1) : TV[j].e = "ret" /\ TV[j].th = th}
        from == IF prev = {} THEN 0 ELSE CHOOSE j \in prev : \A k \in prev : k <= j
    IN  {j \in (from + 1)..(i - 1) : TV[j].e = "exec" /\ TV[j].th = th}
PanicAt(TV) ==
    LET X == {j \in 1..Len(TV) : TV[j].e = "exec" /\ TV[j].how = "panic"}
    IN  IF X = {} THEN Len(TV) + 1 ELSE CHOOSE j \in X : \A k \in X : j <= k
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
AskedAt(TV, i) == Max0({j \in 1..(i - 1) : TV[j].e = "ask" /\ TV[j].th = TV[i].th})

\* Handles report the sampler's own token, chains the one of their latest run.
\* What the sampler reports once the first q entries have happened:
Held(TV, q) ==
    LET j == Max0({k \in 1..q : TV[k].e = "exec"})
    IN  IF j = 0 \/ PanicAt(TV) <= q THEN <<>> ELSE TV[j].tok
Handles == {"direct", "box", "gate", "hook", "tok", "hold"}
TokenOK(TV, i) ==
    IF TV[i].route \in Handles
    THEN \E q \in AskedAt(TV, i)..(i - 1) : TV[i].ret = Held(TV, q)
    ELSE LET j == Max0({k \in 1..(i - 1) : TV[k].e = "ret" /\ TV[k].th = TV[i].th})
         IN  IF j = 0 THEN TV[i].ret = <<>>
             ELSE \/ TV[i].ret = TV[j].ret
                  \* after a run that failed, a token picked during it (C21)
                  \/ /\ TV[j].out # "ok"
                     /\ \E x \in ExecsOf(TV, j) : TV[i].ret = TV[x].tok
\* the hook reaches the sampler once for every time it is in the chain, also
\* while another thread is running it; not at all once it is poisoned
HookedOK(TV, i) ==
    LET X == {j \in AskedAt(TV, i)..(i - 1) : TV[j].e = "hooked" /\ TV[j].th = TV[i].th}
        n == IF TV[i].route = "twice" THEN 2 ELSE 1
    IN  IF PanicAt(TV) > i THEN Cardinality(X) = n ELSE Cardinality(X) <= n
HooksOK(TV) == \A i \in 1..Len(TV) : TV[i].e = "hook" => TV[i].out = "ok" /\ HookedOK(TV, i)

LogOK(TV) ==
    LET pa == PanicAt(TV) IN
    /\ \A j \in 1..Len(TV) : TV[j].e = "exec" => ~TV[j].overlap /\ j <= pa
    /\ \A i \in 1..Len(TV) :
          TV[i].e = "ret" =>
            LET X == ExecsOf(TV, i)
                l == IF X = {} THEN 0 ELSE CHOOSE j \in X : \A k \in X : k <= j
            IN  IF X = {} THEN TV[i].out # "panic" /\ TV[i].ret = <<>> /\ pa < i
                ELSE CASE TV[l].how = "pick" ->
                            \* a member executed again after the panic: an error
                            \/ TV[i].out = "ok" /\ TV[i].ret = TV[l].tok
                               /\ (TV[i].route = "twice" => Cardinality(X) = 2)
                            \/ TV[i].out = "err" /\ TV[i].ret = <<>> /\ TV[i].route = "twice"
                               /\ pa < i
                       [] TV[l].how = "fail" -> TV[i].out = "err" /\ TV[i].ret = <<>>
                       [] OTHER -> TV[i].out # "ok" /\ TV[i].ret = <<>>
    /\ \A i \in 1..Len(TV) : TV[i].e \in {"tok", "hook"} => TV[i].out = "ok"
    /\ \A i \in 1..Len(TV) : TV[i].e = "tok" => TokenOK(TV, i)
    /\ HooksOK(TV)
=============================================================================
