-------------------------------- MODULE MCPair --------------------------------
(***************************************************************************)
(* Two equal samplers, each with a list, a history and a random stream of  *)
(* its own, and others in between.  Each of the two runs its program of    *)
(* steps; whatever the interleaving and whatever the thread, step n of one *)
(* must come out as step n of the other.  A sampler is modelled by the     *)
(* state its runs leave behind.  The interleavings are printed and         *)
(* replayed for every kind of sampler.                                     *)
(*                                                                         *)
(* Bug: "global" - state is kept per kind instead of per sampler;          *)
(* "thread" - state is kept per thread.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Steps, Noise, Emit, Bug

VARIABLES state,  \* store -> runs so far
          pos,    \* steps done by 1 and 2
          outs,   \* their outcomes
          word    \* the interleaving: <<who, thread>>, who = 3 for others
vars == <<state, pos, outs, word>>

Store(who, th) == CASE Bug = "global" -> <<0, 0>> [] Bug = "thread" -> <<who, th>> [] OTHER -> <<who, 0>>
Init == /\ state = [x \in (0..3) \X (0..1) |-> 0]
        /\ pos = <<0, 0>> /\ outs = <<<<>>, <<>>>> /\ word = <<>>
\* the outcome of a run is a function of the state the earlier runs left
Go(who, th) ==
    /\ IF who = 3 THEN Len(SelectSeq(word, LAMBDA x : x[1] = 3)) < Noise ELSE pos[who] < Steps
    /\ state' = [state EXCEPT ![Store(who, th)] = @ + 1]
    /\ outs' = IF who = 3 THEN outs ELSE [outs EXCEPT ![who] = Append(@, state[Store(who, th)])]
    /\ pos' = IF who = 3 THEN pos ELSE [pos EXCEPT ![who] = @ + 1]
    /\ word' = Append(word, <<who, th>>)
\* the other thread is used for one run at most, to keep this small
Next == \E who \in 1..3 : \E th \in 0..1 :
            /\ th = 1 => who # 3 /\ \A i \in 1..Len(word) : word[i][2] = 0
            /\ Go(who, th)
Spec == Init /\ [][Next]_vars

TypeOK == pos[1] <= Steps /\ pos[2] <= Steps
Same == \A i \in 1..Steps : (i <= pos[1] /\ i <= pos[2]) => outs[1][i] = outs[2][i]
Emitted == (Emit /\ pos = <<Steps, Steps>>) => PrintT("BEH " \o ToJson([word |-> word]))
=============================================================================
