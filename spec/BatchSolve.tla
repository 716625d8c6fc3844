----------------------------- MODULE BatchSolve ----------------------------
(***************************************************************************)
(* The iteration loop shared by a batch of polynomials: all lanes advance  *)
(* together until every lane is done or the iteration cap is reached; a    *)
(* root that has converged is frozen.  Checked: whatever the mixture of    *)
(* lanes, a lane ends in exactly the state it reaches on its own.          *)
(* A lane is a sequence of "work" values: the number of steps each of its  *)
(* roots needs.  TLC enumerates every batch and prints it; the driver      *)
(* replays it with polynomials of the corresponding difficulty.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxLanes, Cap
VARIABLES batch, it, left, frozen, phase
vars == <<batch, it, left, frozen, phase>>

(* steps needed by the two tracked roots of a lane of each kind *)
Work(k) == CASE k = "linear" -> <<1, 1>> [] k = "easy" -> <<2, 1>> [] k = "real" -> <<1, 3>>
             [] k = "cluster" -> <<4, 4>> [] k = "scaled" -> <<3, 2>> [] k = "lens" -> <<2, 3>>
Lanes == DOMAIN batch
Init == /\ batch \in UNION {[1..n -> Kinds] : n \in 1..MaxLanes}
        /\ it = 0 /\ phase = "run"
        /\ left = [i \in DOMAIN batch |-> Work(batch[i])]
        /\ frozen = [i \in DOMAIN batch |-> <<FALSE, FALSE>>]
Done(i) == frozen[i][1] /\ frozen[i][2]
(* one synchronous iteration; a root that is frozen keeps its value *)
Step == /\ phase = "run" /\ it < Cap /\ \E i \in Lanes : ~Done(i)
        /\ it' = it + 1
        /\ left' = [i \in Lanes |-> [r \in 1..2 |-> IF frozen[i][r] THEN left[i][r] ELSE left[i][r] - 1]]
        /\ frozen' = [i \in Lanes |-> [r \in 1..2 |-> frozen[i][r] \/ left[i][r] - 1 <= 0]]
        /\ UNCHANGED <<batch, phase>>
Stop == /\ phase = "run" /\ (it = Cap \/ \A i \in Lanes : Done(i))
        /\ phase' = "end" /\ UNCHANGED <<batch, it, left, frozen>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
(* What the lane reaches when it runs alone *)
Alone(i) == [r \in 1..2 |-> IF Work(batch[i])[r] <= Cap THEN 0 ELSE Work(batch[i])[r] - Cap]
LaneIndependent == phase = "end" => \A i \in Lanes : left[i] = Alone(i)
NeverPastConverged == \A i \in Lanes : \A r \in 1..2 : left[i][r] >= 0
Emit == phase = "end" => PrintT(<<"SCN", ToJson(batch)>>)
=============================================================================
