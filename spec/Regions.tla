------------------------------ MODULE Regions ------------------------------
(* All arrangements of up to MaxCells image cells on a polar grid, and how *)
(* they are cut into regions (see RegionsCore).                            *)
EXTENDS RegionsCore, TLC, Json
CONSTANTS NB, NT, MaxCells, MaxWithin
VARIABLES occ, close, polar, phase
vars == <<occ, close, polar, phase>>
Cells == (1..NB) \X (0..(NT - 1))
Init == occ = {} /\ close = {} /\ polar = FALSE /\ phase = "place"
Place == /\ phase = "place" /\ Cardinality(occ) < MaxCells
         /\ \E c \in Cells \ occ : occ' = occ \cup {c}
         /\ UNCHANGED <<close, polar, phase>>
Close == /\ phase = "place" /\ occ # {}
         /\ \E k \in SUBSET {b \in 1..(NB - 1) : b \in Bands(occ) /\ b + 1 \in Bands(occ)}, p \in BOOLEAN :
              /\ p => 1 \in Bands(occ)
              /\ (k # {} \/ p) => Cardinality(occ) <= MaxWithin
              /\ close' = k /\ polar' = p
         /\ phase' = "done" /\ UNCHANGED occ
Next == Place \/ Close
Spec == Init /\ [][Next]_vars
W == Wanted(occ, close, polar, NT)
CellsOf(w) == {c \in occ : c[1] \in w.ring /\ c[2] \in w.arc}
EachCellOnce == phase = "done" => \A c \in occ : Cardinality({w \in W : c \in CellsOf(w)}) = 1
NoEmptyRegion == phase = "done" => \A w \in W : CellsOf(w) # {}
Disjoint == phase = "done" => \A v, w \in W : v # w => v.ring \cap w.ring = {} \/ v.arc \cap w.arc = {}
WrapJoinIsArcs == phase = "done" => \A r \in Rings(occ, close) : WrapJoin(Sectors(occ, r), NT) = Arcs(Sectors(occ, r), NT)
Emit == phase = "done" => PrintT(<<"SCN", ToJson([nt |-> NT, occ |-> occ, close |-> close, polar |-> polar, n |-> Cardinality(W)])>>)
=============================================================================
