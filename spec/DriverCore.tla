---------------------------- MODULE DriverCore -----------------------------
(* What a light-curve driver owes its caller; used by the exhaustive model *)
(* (Driver) and by the trace specification of the real drivers.            *)
EXTENDS Integers, FiniteSets
(* What the driver must produce (used again by the trace specification) *)
Rank(need, i) == Cardinality({j \in 1..i : need[j]})
Expected(need, budget, i) == IF need[i] /\ Rank(need, i) <= budget THEN "full" ELSE "multi"
=============================================================================
