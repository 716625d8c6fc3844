------------------------------ MODULE Matching -----------------------------
(***************************************************************************)
(* Greedy matching of two point sets, as used to keep images and critical  *)
(* points in continuous order: each a[i] in turn takes the nearest b that  *)
(* is still free (any of them on a tie).  TLC explores every choice of     *)
(* small integer point sets and every tie-break.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, MaxN
VARIABLES a, b, taken

Dist(x, y) == IF x < y THEN y - x ELSE x - y
Free == DOMAIN b \ {taken[k] : k \in DOMAIN taken}
Nearest(i) == {j \in Free : \A k \in Free : Dist(a[i], b[j]) <= Dist(a[i], b[k])}
Init == \E n \in 1..MaxN : /\ a \in [1..n -> Points] /\ b \in [1..n -> Points] /\ taken = << >>
Take == /\ Len(taken) < Len(a) /\ \E j \in Nearest(Len(taken) + 1) : taken' = Append(taken, j) /\ UNCHANGED <<a, b>>
Next == Take
Done == Len(taken) = Len(a)

OneToOne == \A i, j \in DOMAIN taken : i # j => taken[i] # taken[j]
(* If every point moved by less than half the separation of the new points, the true pairing is recovered *)
Small(p) == \A i \in DOMAIN a : \A j \in DOMAIN b : j # p[i] => 2 * Dist(a[i], b[p[i]]) < Dist(b[p[i]], b[j])
Tracks == Done => \A p \in [DOMAIN a -> DOMAIN b] : (\A i, j \in DOMAIN a : i # j => p[i] # p[j]) /\ Small(p) => taken = p
NeverStuck == Len(taken) < Len(a) => Free # {}
Emit == taken = << >> => PrintT(<<"SCN", ToJson([a |-> a, b |-> b])>>)
=============================================================================
