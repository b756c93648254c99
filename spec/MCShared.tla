------------------------------- MODULE MCShared -------------------------------
(***************************************************************************)
(* Threads using one sampler through a lock.  Threads go by routes: the    *)
(* handle itself ("direct"), a chain around it ("chain"), a chain holding  *)
(* it twice ("twice"); others only read its token ("tok") or invoke the    *)
(* pre-sampling hook ("hook").  A run acquires the lock, executes the sampler,     *)
(* reads the token it chose and releases the lock; a thread that panics    *)
(* while holding the lock poisons it, and later runs get an error.  Every  *)
(* interleaving's log must satisfy LogOK, the predicate recorded logs of   *)
(* real threads are judged by.                                             *)
(*                                                                         *)
(* Bug "split": the lock is released between executing and reading;        *)
(* "poison": a poisoned lock is ignored; "nolock": runs do not exclude     *)
(* each other; "unwrap": a poisoned lock panics; "try": token and hook do  *)
(* not wait for a run in progress.                                         *)
(***************************************************************************)
EXTENDS Shared, TLC, Json

CONSTANTS Routes,   \* the route of each thread
          Runs,     \* runs per thread
          PanicNo, FailNo,   \* which executions panic or fail (99: none)
          Bug, Emit
N == Len(Routes)
Th == 1..N
R4 == <<"box", "chain", "twice">>
R2 == <<"direct", "chain">>
R3 == <<"direct", "chain", "twice">>
RH == <<"direct", "hook", "tok">>
RC == <<"chain", "tok", "hook">>
Asks(t) == Routes[t] \in {"tok", "hook"}

VARIABLES pc, left,  \* of each thread: where it is, runs to go
          occ,       \* occurrences of the sampler still to run in this run
          got,       \* token of the latest occurrence in this run
          owner, poisoned, tok, count, inside,
          log
vars == <<pc, left, occ, got, owner, poisoned, tok, count, inside, log>>

Init ==
    /\ pc = [t \in Th |-> "idle"] /\ left = [t \in Th |-> Runs]
    /\ occ = [t \in Th |-> 0] /\ got = [t \in Th |-> <<>>]
    /\ owner = 0 /\ poisoned = FALSE /\ tok = <<>> /\ count = 0 /\ inside = {}
    /\ log = <<>>

Begin(t) ==
    /\ pc[t] = "idle" /\ left[t] > 0
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ occ' = [occ EXCEPT ![t] = IF Routes[t] = "twice" THEN 2 ELSE 1]
    /\ got' = [got EXCEPT ![t] = <<>>]
    /\ pc' = [pc EXCEPT ![t] = "lock"]
    /\ log' = IF Asks(t) THEN Append(log, [e |-> "ask", th |-> t]) ELSE log
    /\ UNCHANGED <<owner, poisoned, tok, count, inside>>
Ret(t, out, ret) ==
    log' = Append(log, [e |-> "ret", th |-> t, route |-> Routes[t], out |-> out, ret |-> ret])
\* reading the token and invoking the hook hold the lock for one step
Ask(t) ==
    /\ pc[t] = "lock" /\ Asks(t)
    /\ owner = 0 \/ Bug \in {"nolock", "try"}
    /\ LET skip == poisoned \/ (owner # 0 /\ Bug = "try")
       IN  /\ got' = [got EXCEPT ![t] = IF skip \/ Routes[t] = "hook" THEN <<>> ELSE tok]
           /\ log' = IF skip \/ Routes[t] = "tok" THEN log ELSE Append(log, [e |-> "hooked", th |-> t])
    /\ pc' = [pc EXCEPT ![t] = "answer"]
    /\ UNCHANGED <<left, occ, owner, poisoned, tok, count, inside>>
Answer(t) ==
    /\ pc[t] = "answer"
    /\ log' = Append(log, [e |-> Routes[t], th |-> t, route |-> Routes[t], ret |-> got[t],
                          out |-> IF poisoned /\ Bug = "unwrap" THEN "panic" ELSE "ok"])
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<left, occ, got, owner, poisoned, tok, count, inside>>
Lock(t) ==
    /\ pc[t] = "lock" /\ ~Asks(t) /\ (owner = 0 \/ Bug = "nolock")
    /\ IF poisoned /\ Bug # "poison"
       THEN /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ Ret(t, IF Bug = "unwrap" THEN "panic" ELSE "err", <<>>)
            /\ UNCHANGED <<owner, inside>>
       ELSE /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "exec"]
            /\ inside' = inside \cup {t}
            /\ UNCHANGED log
    /\ UNCHANGED <<left, occ, got, poisoned, tok, count>>
Exec(t) ==
    /\ pc[t] = "exec"
    /\ LET how == IF count = PanicNo THEN "panic" ELSE IF count = FailNo THEN "fail" ELSE "pick"
           ex == [e |-> "exec", th |-> t, how |-> how, overlap |-> inside # {t},
                  tok |-> IF how = "pick" THEN <<count>> ELSE <<>>]
       IN  /\ count' = count + 1
           /\ tok' = IF how = "pick" THEN <<count>> ELSE <<>>
           /\ CASE how = "pick" ->
                     /\ pc' = [pc EXCEPT ![t] = IF Bug = "split" THEN "relock" ELSE "read"]
                     /\ log' = Append(log, ex)
                     /\ owner' = IF Bug = "split" THEN 0 ELSE owner
                     /\ inside' = IF Bug = "split" THEN inside \ {t} ELSE inside
                     /\ UNCHANGED poisoned
                [] how = "fail" ->
                     /\ pc' = [pc EXCEPT ![t] = "idle"]
                     /\ log' = Append(log, ex) \o <<[e |-> "ret", th |-> t, route |-> Routes[t], out |-> "err", ret |-> <<>>]>>
                     /\ owner' = 0 /\ inside' = inside \ {t}
                     /\ UNCHANGED poisoned
                [] how = "panic" ->
                     /\ pc' = [pc EXCEPT ![t] = "idle"]
                     /\ log' = Append(log, ex) \o <<[e |-> "ret", th |-> t, route |-> Routes[t], out |-> "panic", ret |-> <<>>]>>
                     /\ owner' = 0 /\ inside' = inside \ {t}
                     /\ poisoned' = TRUE
    /\ UNCHANGED <<left, occ, got>>
Relock(t) ==
    /\ pc[t] = "relock" /\ owner = 0
    /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ UNCHANGED <<left, occ, got, poisoned, tok, count, inside, log>>
Read(t) ==
    /\ pc[t] = "read"
    /\ owner' = 0 /\ inside' = inside \ {t}
    /\ occ' = [occ EXCEPT ![t] = @ - 1]
    /\ IF occ[t] > 1
       THEN pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED log
       ELSE pc' = [pc EXCEPT ![t] = "idle"] /\ Ret(t, "ok", tok)
    /\ got' = [got EXCEPT ![t] = tok]
    /\ UNCHANGED <<left, poisoned, tok, count>>
Next == \E t \in Th : Begin(t) \/ Ask(t) \/ Answer(t) \/ Lock(t) \/ Exec(t) \/ Relock(t) \/ Read(t)
Fair == \A t \in Th : WF_vars(Begin(t)) /\ SF_vars(Ask(t)) /\ WF_vars(Answer(t)) /\ SF_vars(Lock(t)) /\ WF_vars(Exec(t)) /\ SF_vars(Relock(t)) /\ WF_vars(Read(t))
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == owner \in 0..N
Exclusive == Cardinality(inside) <= 1
Logs == LogOK(log)
Emitted == (Emit /\ \A t \in Th : pc[t] = "idle" /\ left[t] = 0) =>
               PrintT("BEH " \o ToJson([log |-> [i \in 1..Len(log) |-> <<log[i].e, log[i].th>>], routes |-> Routes,
                                       runs |-> Runs, panic |-> PanicNo, fail |-> FailNo]))
\* every run returns
Done == <>(\A t \in Th : pc[t] = "idle" /\ left[t] = 0)
=============================================================================
