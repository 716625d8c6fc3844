---------------------------- MODULE RegionsTrace ---------------------------
(* What the regions handed to the polar integrator owe the images *)
EXTENDS Dec, RegionsCore
LOCAL W(e) == Wanted({e.occ[i] : i \in DOMAIN e.occ}, {e.close[i] : i \in DOMAIN e.close}, e.polar, e.nt)
LOCAL Turns == {-1, 0, 1}
LOCAL Full(r) == DLt(r.r[1], r.r[2])
LOCAL Wide(r) == DSub(r.th[2], r.th[1])
LOCAL InR(r, p) == DLe(r.r[1], p.r) /\ DLe(p.r, r.r[2])
LOCAL InTh(r, p) == \E k \in Turns : LET t == DAdd(p.th, DMul(DMul(2, DPi), k)) IN DLe(DSub(r.th[1], "1e-12"), t) /\ DLe(t, DAdd(r.th[2], "1e-12"))
Covers(r, p) == InR(r, p) /\ InTh(r, p)
EveryImageCovered(e) == \A i \in DOMAIN e.pts : \E j \in DOMAIN e.reg : Full(e.reg[j]) /\ Covers(e.reg[j], e.pts[i])
(* an overlap of less than a thousandth of a bin is rounding *)
LOCAL Apart(a, b) == \/ DLe(a.r[2], DAdd(b.r[1], "1e-9")) \/ DLe(b.r[2], DAdd(a.r[1], "1e-9"))
                     \/ \A k \in Turns : LET d == DMul(DMul(2, DPi), k) IN
                          DLe(a.th[2], DAdd(DAdd(b.th[1], d), "1e-6")) \/ DLe(DAdd(b.th[2], d), DAdd(a.th[1], "1e-6"))
NoPlaceTwice(e) ==
  /\ \A i, j \in DOMAIN e.reg : i < j /\ Full(e.reg[i]) /\ Full(e.reg[j]) => Apart(e.reg[i], e.reg[j])
  /\ \A i \in DOMAIN e.reg : Full(e.reg[i]) => DLe(Wide(e.reg[i]), DAdd(DAdd(DMul(2, DPi), DMul(2, e.mth)), "1e-9"))
OneRegionPerArc(e) == Cardinality({j \in DOMAIN e.reg : Full(e.reg[j])}) = Cardinality(W(e))
(* a region is not much larger than its arc: margins and up to three bins; resolution depends on it *)
LOCAL Bin(e) == DDiv(DMul(2, DPi), e.bins)
Tight(e) ==
  \A j \in DOMAIN e.reg : Full(e.reg[j]) =>
    \E w \in W(e) :
      /\ \E i \in DOMAIN e.pts : e.pts[i].b \in w.ring /\ e.pts[i].s \in w.arc /\ Covers(e.reg[j], e.pts[i])
      /\ DLe(Wide(e.reg[j]), DAdd(DMul(DDiv(Cardinality(w.arc), e.nt), DMul(2, DPi)), DAdd(DMul(2, e.mth), DMul(3, Bin(e)))))
      /\ \A i \in DOMAIN e.pts : e.pts[i].b \notin w.ring => ~InR(e.reg[j], e.pts[i])
=============================================================================
