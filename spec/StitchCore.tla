----------------------------- MODULE StitchCore ----------------------------
(***************************************************************************)
(* Images along the limb of a source.                                      *)
(*                                                                         *)
(* A history goes once around the limb.  Slots hold images (parity 1, -1)  *)
(* or nothing (0).  At a caustic crossing two images of opposite parity    *)
(* are born together or die together; at the end of the turn the images    *)
(* meet those of the beginning again.                                      *)
(*   h.init : slot -> parity or 0                                          *)
(*   h.ev   : sequence of [kind, a, b, p]: slots a, b; p parity of a       *)
(*   h.wrap : slot -> the slot in which its image began the turn, or 0     *)
(* A branch is the life <<slot, first stage, last stage>> of an image;     *)
(* stage i lies between event i and event i + 1.  Where branches are born  *)
(* or die together, or meet across the end of the turn, their ends are     *)
(* linked: every end has exactly one link, so the branches form closed     *)
(* curves -- the outlines of the images of the disk.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Apply(occ, e) == IF e.kind = "birth" THEN [occ EXCEPT ![e.a] = e.p, ![e.b] = -e.p] ELSE [occ EXCEPT ![e.a] = 0, ![e.b] = 0]
RECURSIVE OccAt(_, _)
OccAt(h, i) == IF i = 0 THEN h.init ELSE Apply(OccAt(h, i - 1), h.ev[i])
Stages(h) == 0..Len(h.ev)
Touches(h, i, s) == i >= 1 /\ i <= Len(h.ev) /\ s \in {h.ev[i].a, h.ev[i].b}

Branches(h) ==
  LET E == Len(h.ev)
      occ == [i \in 0..E |-> OccAt(h, i)]
  IN {b \in {<<s, i, j>> : s \in DOMAIN h.init, i \in 0..E, j \in 0..E} :
        /\ b[2] <= b[3]
        /\ \A i \in b[2]..b[3] : occ[i][b[1]] # 0
        /\ b[2] = 0 \/ Touches(h, b[2], b[1])
        /\ b[3] = E \/ Touches(h, b[3] + 1, b[1])
        /\ \A i \in (b[2] + 1)..b[3] : ~Touches(h, i, b[1])}
Parity(h, b) == OccAt(h, b[2])[b[1]]
(* All pairs <<end, the end it is linked to>> *)
Links(h) ==
  LET E == Len(h.ev)  B == Branches(h)
      Born == UNION {{<<<<b, "head">>, <<c, "head">>>> : c \in {x \in B : x[2] = b[2] /\ x # b}} : b \in {x \in B : x[2] > 0}}
      Died == UNION {{<<<<b, "tail">>, <<c, "tail">>>> : c \in {x \in B : x[3] = b[3] /\ x # b}} : b \in {x \in B : x[3] < E}}
      Turn == UNION {{<<<<b, "tail">>, <<c, "head">>>> : c \in {x \in B : x[2] = 0 /\ x[1] = h.wrap[b[1]]}} : b \in {x \in B : x[3] = E}}
  IN Born \cup Died \cup Turn \cup {<<p[2], p[1]>> : p \in Turn}
(* branches reachable from b *)
RECURSIVE Reach(_, _)
Reach(Lk, S) == LET N == S \cup {p[2][1] : p \in {q \in Lk : q[1][1] \in S}} IN IF N = S THEN S ELSE Reach(Lk, N)
Outlines(h) == LET Lk == Links(h) IN {Reach(Lk, {b}) : b \in Branches(h)}
(* an image that lives through the whole turn and comes back to its own slot *)
IsClosed(h, b) == b[2] = 0 /\ b[3] = Len(h.ev) /\ h.wrap[b[1]] = b[1]
=============================================================================
