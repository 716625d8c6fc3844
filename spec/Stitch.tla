------------------------------- MODULE Stitch ------------------------------
(***************************************************************************)
(* All histories of images around the limb of a source, up to MaxEvents    *)
(* caustic crossings (see StitchCore).  Slots, parities and the pairing    *)
(* across the end of the turn are free; the total parity is that of the    *)
(* lens throughout.                                                        *)
(***************************************************************************)
EXTENDS StitchCore, Json, FiniteSetsExt
CONSTANTS NSlots, Deficit, MaxEvents, InitLive

Total == -Deficit
VARIABLES occ, h, phase
vars == <<occ, h, phase>>
Slots == 1..NSlots
Ghosts == {s \in Slots : occ[s] = 0}
Live == {s \in Slots : occ[s] # 0}
Pos(o) == Cardinality({s \in Slots : o[s] = 1})
Neg(o) == Cardinality({s \in Slots : o[s] = -1})

(* the first slots are occupied, positive images first: slots are interchangeable at the start *)
Init == /\ \E n \in InitLive : LET p == (n + Total) \div 2 IN occ = [s \in Slots |-> IF s <= p THEN 1 ELSE IF s <= n THEN -1 ELSE 0]
        /\ h = [init |-> occ, ev |-> <<>>, wrap |-> <<>>]
        /\ phase = "turn"
Do(e) == /\ occ' = Apply(occ, e) /\ h' = [h EXCEPT !.ev = Append(@, e)] /\ phase' = phase
Birth == /\ phase = "turn" /\ Len(h.ev) < MaxEvents /\ Cardinality(Ghosts) >= 2
         /\ LET a == Min(Ghosts)  z == Max(Ghosts)  b == Min(Ghosts \ {a}) IN
            \E q \in {<<a, b>>, <<a, z>>}, p \in {1, -1} : Do([kind |-> "birth", a |-> q[1], b |-> q[2], p |-> p])
Death == /\ phase = "turn" /\ Len(h.ev) < MaxEvents
         /\ \E a, b \in Live : /\ occ[a] = 1 /\ occ[b] = -1 /\ Cardinality(Live) > Deficit + 2
                               /\ Do([kind |-> "death", a |-> a, b |-> b, p |-> 1])
(* The turn closes when as many images are left as there were; the tracker may have *)
(* permuted slots: identity, or a permutation that keeps parities.                  *)
SameLive == \A v \in {1, -1} : Cardinality({s \in Slots : occ[s] = v}) = Cardinality({s \in Slots : h.init[s] = v})
Rank(o, s) == Cardinality({t \in Slots : t <= s /\ o[t] = o[s]})
CountOf(o, v) == Cardinality({t \in Slots : o[t] = v})
Nth(o, v, k) == CHOOSE s \in Slots : o[s] = v /\ Rank(o, s) = k
Close == /\ phase = "turn" /\ Len(h.ev) > 0 /\ SameLive
         /\ \E shift \in {<<0, 0>>, <<0, 1>>, <<1, 0>>} :
              LET Img(s) == IF occ[s] = 0 THEN 0
                            ELSE LET n == CountOf(occ, occ[s]) k == ((Rank(occ, s) - 1 + shift[IF occ[s] = 1 THEN 1 ELSE 2]) % n) + 1
                                 IN Nth(h.init, occ[s], k)
              IN h' = [h EXCEPT !.wrap = [s \in Slots |-> Img(s)]]
         /\ phase' = "end" /\ UNCHANGED occ
Next == Birth \/ Death \/ Close
Spec == Init /\ [][Next]_vars

TotalParity == Pos(occ) - Neg(occ) = Total
OccupancyIsHistory == occ = OccAt(h, Len(h.ev))
(* every end of every branch has exactly one link, links are mutual, and parity times direction is conserved *)
OneLink == phase = "end" =>
  LET Lk == Links(h) B == Branches(h) IN
  /\ \A b \in B : \A d \in {"head", "tail"} : Cardinality({p \in Lk : p[1] = <<b, d>>}) = 1
  /\ \A p \in Lk : <<p[2], p[1]>> \in Lk
  /\ \A p \in Lk : (p[1][2] = p[2][2]) = (Parity(h, p[1][1]) # Parity(h, p[2][1]))
OutlinesPartition == phase = "end" =>
  LET O == Outlines(h) IN UNION O = Branches(h) /\ \A x, y \in O : x # y => x \cap y = {}
Emit == phase = "end" => PrintT(<<"SCN", ToJson(h)>>)
=============================================================================
