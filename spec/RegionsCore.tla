---------------------------- MODULE RegionsCore ----------------------------
(***************************************************************************)
(* Polar regions around the images.                                        *)
(*                                                                         *)
(* occ is a set of cells <<band, sector>>: radial bands 1, 2, ... and NT   *)
(* angular sectors 0..NT-1 around the origin.  Bands b and b+1 with b in   *)
(* `close` lie next to each other in radius, the others are well apart.    *)
(* The images form rings (bands that cannot be told apart in radius) and,  *)
(* in a ring, arcs: maximal runs of neighbouring sectors on the circle.    *)
(* With `polar` the innermost band reaches the origin: its ring is one     *)
(* full turn.  Every arc deserves one region and no place deserves two.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Bands(occ) == {c[1] : c \in occ}
Joined(occ, close, b, d) == b <= d /\ \A x \in b..d : x \in Bands(occ) /\ (x < d => x \in close)
Ring(occ, close, b) == {d \in Bands(occ) : Joined(occ, close, b, d) \/ Joined(occ, close, d, b)}
Rings(occ, close) == {Ring(occ, close, b) : b \in Bands(occ)}
Sectors(occ, ring) == {c[2] : c \in {x \in occ : x[1] \in ring}}
(* the arc of S through s: everything reachable over neighbours on the circle *)
RECURSIVE Grow(_, _, _)
Grow(S, A, NT) == LET B == A \cup {s \in S : (s + 1) % NT \in A \/ (s + NT - 1) % NT \in A} IN IF B = A THEN A ELSE Grow(S, B, NT)
Arcs(S, NT) == {Grow(S, {s}, NT) : s \in S}
Wanted(occ, close, polar, NT) ==
  UNION {IF polar /\ 1 \in r THEN {[ring |-> r, arc |-> 0..(NT - 1)]}
         ELSE {[ring |-> r, arc |-> a] : a \in Arcs(Sectors(occ, r), NT)} : r \in Rings(occ, close)}
(* How the code finds the arcs: runs on the line 0..NT-1, then the run that ends *)
(* the turn is joined with the one that begins it.                               *)
LinearRuns(S, NT) == {a \in SUBSET S : a # {} /\ LET lo == CHOOSE x \in a : \A y \in a : x <= y
                                                     hi == CHOOSE x \in a : \A y \in a : y <= x
                                                 IN a = lo..hi /\ lo - 1 \notin S /\ hi + 1 \notin S}
WrapJoin(S, NT) == LET R == LinearRuns(S, NT)
                       first == {a \in R : 0 \in a}
                       last == {a \in R : NT - 1 \in a}
                   IN (R \ (first \cup last)) \cup (IF first # {} /\ last # {} THEN {UNION (first \cup last)} ELSE first \cup last)
=============================================================================
