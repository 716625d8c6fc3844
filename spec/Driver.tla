------------------------------- MODULE Driver ------------------------------
(***************************************************************************)
(* The adaptive light-curve driver as a state machine.                     *)
(*                                                                         *)
(* Input: positions 1..n; need[i] says whether position i fails the        *)
(* accuracy tests; budget limits the expensive evaluations; chunk is the   *)
(* batch width.  The driver orders the positions with the needy ones       *)
(* first, keeps the first `budget`, evaluates them chunk by chunk (padding *)
(* the last chunk), cuts the padding, writes the results back, and lets    *)
(* positions that do not need it keep the cheap estimate.                  *)
(* Result kinds: <<"multi", i>> / <<"full", i>>, the i being the position  *)
(* the value was computed FOR, so a mix-up of positions is visible.        *)
(***************************************************************************)
EXTENDS DriverCore, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS MaxN, MaxBudget, MaxChunk

VARIABLES need, budget, chunk, order, todo, done, out, phase
vars == <<need, budget, chunk, order, todo, done, out, phase>>
N == Len(need)

Init == /\ need \in UNION {[1..n -> BOOLEAN] : n \in 1..MaxN}
        /\ budget \in 0..MaxBudget /\ chunk \in 1..MaxChunk
        /\ order = <<>> /\ todo = <<>> /\ done = <<>> /\ phase = "sort"
        /\ out = [i \in DOMAIN need |-> <<"multi", i>>]
(* stable: needy first, each group in the original order *)
Sort == /\ phase = "sort"
        /\ LET idx == [i \in 1..N |-> i]
               o == SelectSeq(idx, LAMBDA i : need[i]) \o SelectSeq(idx, LAMBDA i : ~need[i])
               sel == SubSeq(o, 1, IF budget < N THEN budget ELSE N)
               pad == (chunk - (Len(sel) % chunk)) % chunk
           IN order' = sel /\ todo' = sel \o [i \in 1..pad |-> 0]
        /\ phase' = "eval" /\ UNCHANGED <<need, budget, chunk, done, out>>
(* one chunk; 0 is padding, whose value is computed and thrown away *)
EvalChunk == /\ phase = "eval" /\ todo # <<>>
             /\ done' = done \o [k \in 1..chunk |-> <<"full", todo[k]>>]
             /\ todo' = SubSeq(todo, chunk + 1, Len(todo))
             /\ UNCHANGED <<need, budget, chunk, order, out, phase>>
Scatter == /\ phase = "eval" /\ todo = <<>>
           /\ LET vals == SubSeq(done, 1, Len(order)) IN
              out' = [i \in 1..N |-> IF \E k \in 1..Len(order) : order[k] = i
                                     THEN vals[CHOOSE k \in 1..Len(order) : order[k] = i] ELSE out[i]]
           /\ phase' = "merge" /\ UNCHANGED <<need, budget, chunk, order, todo, done>>
Merge == /\ phase = "merge"
         /\ out' = [i \in 1..N |-> IF need[i] THEN out[i] ELSE <<"multi", i>>]
         /\ phase' = "end" /\ UNCHANGED <<need, budget, chunk, order, todo, done>>
Next == Sort \/ EvalChunk \/ Scatter \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every value belongs to its own position, at every step *)
OwnPosition == \A i \in 1..N : out[i][2] = i
ByBudget == phase = "end" => \A i \in 1..N : out[i] = <<Expected(need, budget, i), i>>
NoWaste == Len(done) <= (Len(order) + chunk - 1)
Ample == (phase = "end" /\ budget >= N) => \A i \in 1..N : out[i][1] = (IF need[i] THEN "full" ELSE "multi")
Terminates == <>(phase = "end")
Emit == phase = "end" => PrintT(<<"SCN", ToJson([need |-> need, budget |-> budget, chunk |-> chunk])>>)
=============================================================================
