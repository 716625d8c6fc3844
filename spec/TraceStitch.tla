----------------------------- MODULE TraceStitch ---------------------------
(***************************************************************************)
(* C11: from images along the limb to closed outlines.                     *)
(*                                                                         *)
(* `stitch` events: a history enumerated from Stitch was drawn as smooth   *)
(* curves, sampled along the limb and given to the segment code.  Each     *)
(* outline it returned is recorded as runs <<slot, from, to>> of samples.  *)
(* `cut[i]` is the first sample after event i.  The outlines must be       *)
(* exactly the closed curves of the history.                               *)
(***************************************************************************)
EXTENDS TraceBase, StitchCore, Lens
VARIABLES note
vars == <<l, bad, note>>

FirstOf(e, b) == IF b[2] = 0 THEN 1 ELSE e.cut[b[2]]
LastOf(e, b) == IF b[3] = Len(e.h.ev) THEN e.npts ELSE e.cut[b[3] + 1] - 1
Lo2(x, y) == IF x < y THEN x ELSE y
Hi2(x, y) == IF x < y THEN y ELSE x
(* run r walks along branch b, forwards or backwards *)
Covers(e, b, r) == r[1] = b[1] /\ Lo2(r[2], r[3]) = FirstOf(e, b) /\ Hi2(r[2], r[3]) = LastOf(e, b)
Fwd(r) == r[2] < r[3]
Exit(b, r) == <<b, IF Fwd(r) THEN "tail" ELSE "head">>
Entry(b, r) == <<b, IF Fwd(r) THEN "head" ELSE "tail">>

SumSet2(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Stitch(e) ==
  \E B \in {Branches(e.h)}, Lk \in {Links(e.h)} :
  \E Opn \in {{O \in Outlines(e.h) : ~\E b \in O : IsClosed(e.h, b)}} :
  LET Of(r) == {b \in B : Covers(e, b, r)}
      AllRuns == UNION {{<<c, k>> : k \in DOMAIN e.outlines[c].runs} : c \in DOMAIN e.outlines}
      Run(x) == e.outlines[x[1]].runs[x[2]]
      known == \A x \in AllRuns : Of(Run(x)) # {}
      Bo(r) == CHOOSE b \in Of(r) : TRUE
      Points(O) == SumSet2(O, LAMBDA b : LastOf(e, b) - FirstOf(e, b) + 1)
      \* the code joins up to `limit` outlines of up to 4 npts points
      within == Cardinality(Opn) <= e.limit /\ \A O \in Opn : Points(O) < 4 * e.npts
      Joined(c) == LET R == e.outlines[c].runs  n == Len(R) IN
                   \A k \in 1..n : LET m == (k % n) + 1 IN
                     (n = 1 /\ IsClosed(e.h, Bo(R[1]))) \/ <<Exit(Bo(R[k]), R[k]), Entry(Bo(R[m]), R[m])>> \in Lk
      Signed(c) == \A k \in DOMAIN e.outlines[c].runs : LET r == e.outlines[c].runs[k] IN
                     e.outlines[c].parity = (IF Fwd(r) THEN 1 ELSE -1) * Parity(e.h, Bo(r))
  IN /\ Verdict(Clause("OnlyTrackPoints", within => \A c \in DOMAIN e.outlines : e.outlines[c].foreign = 0)
                \cup Clause("WholeBranches", within => known)
                \cup (IF ~known THEN {} ELSE
                  Clause("NoBranchTwice", within => \A x, y \in AllRuns : x # y => Of(Run(x)) # Of(Run(y)))
                  \cup Clause("EveryBranch", within => \A b \in B : \E x \in AllRuns : Bo(Run(x)) = b)
                  \cup Clause("JoinedAtCaustics", within => \A c \in DOMAIN e.outlines : Joined(c))
                  \cup Clause("ClosedPolygon", within => \A c \in DOMAIN e.outlines : e.outlines[c].closed)
                  \cup Clause("Orientation", within => \A c \in DOMAIN e.outlines : Signed(c))))
     /\ note' = IF within THEN [note EXCEPT !.histories = @ + 1, !.outlines = @ + Len(e.outlines), !.branches = @ + Cardinality(B)]
                ELSE [note EXCEPT !.beyond_limit = @ + 1]

(***************************************************************************)
(* `limb` events: images the real tracker found along the limb of a real   *)
(* source.  runs are the maximal stretches of unmasked samples of a slot   *)
(* with one parity; the outlines must traverse each exactly once, change   *)
(* direction with parity, and step from run to run only over short gaps.   *)
(***************************************************************************)
(* pts[j]: the unmasked images of sample j.  They are images of one point of the limb, and the points go round it once. *)
OnLimb(e) ==
  \E L \in {Lenses(e.g)} :
  \E W \in {[j \in DOMAIN e.pts |-> [k \in DOMAIN e.pts[j] |-> LensMap(L, e.pts[j][k])]]} :
  LET Tol == DMul("1e-4", e.rho)
      Cross2(a, b) == DSub(DMul(a[1], b[2]), DMul(a[2], b[1]))
      Off(j) == CSub(W[j][1], e.w)
      n == Len(W)
  IN /\ Verdict(Clause("LimbAtLeastN+1", \A j \in DOMAIN W : Len(W[j]) >= e.g.n + 1)
                \cup Clause("LimbParity", \A j \in DOMAIN e.par : FoldLeft(LAMBDA acc, x : acc + x, 0, e.par[j]) = 1 - e.g.n)
                \cup Clause("LimbParityIsSignOfJacobian", \A j \in DOMAIN e.pts : \A k \in DOMAIN e.pts[j] :
                        LET d == DetJac(L, e.pts[j][k]) IN DLe(DAbs(d), "1e-5") \/ (e.par[j][k] = 1) = DLt(0, d))
                \cup Clause("LimbSamePoint", \A j \in DOMAIN W : \A k \in DOMAIN W[j] : CNear(W[j][k], W[j][1], Tol))
                \cup Clause("LimbOnCircle", \A j \in DOMAIN W : DNear(CAbs(Off(j)), e.rho, Tol))
                \cup Clause("LimbRoundOnce", /\ \A j \in 1..(n - 1) : DLt(DNeg(Tol), Cross2(Off(j), Off(j + 1)))
                                             /\ CNear(W[n][1], W[1][1], Tol)
                                             /\ Cardinality({j \in 1..(n - 1) : DLt(Off(j)[2], 0) /\ ~DLt(Off(j + 1)[2], 0)}) = 1))
     /\ UNCHANGED note

Limb(e) ==
  LET AllRuns == UNION {{<<c, k>> : k \in DOMAIN e.outlines[c].runs} : c \in DOMAIN e.outlines}
      Run(x) == e.outlines[x[1]].runs[x[2]]
      Same(r, q) == r[1] = q[1] /\ Lo2(r[2], r[3]) = q[2] /\ Hi2(r[2], r[3]) = q[3]
      Sign(c) == \A k \in DOMAIN e.outlines[c].runs : LET r == e.outlines[c].runs[k] IN
                   \E q \in Range(e.tracks) : Same(r, q) /\ e.outlines[c].parity = (IF Fwd(r) THEN 1 ELSE -1) * q[4]
  IN /\ Verdict(Clause("LimbOnlyTrackPoints", \A c \in DOMAIN e.outlines : e.outlines[c].foreign = 0)
                \cup Clause("LimbWholeRuns", \A x \in AllRuns : \E q \in Range(e.tracks) : Same(Run(x), q))
                \cup Clause("LimbEachOnce", \A q \in Range(e.tracks) : q[3] > q[2] => Cardinality({x \in AllRuns : Same(Run(x), q)}) = 1)
                \cup Clause("LimbClosedPolygon", \A c \in DOMAIN e.outlines : e.outlines[c].closed)
                \cup Clause("LimbOrientation", \A c \in DOMAIN e.outlines : Sign(c)))
     /\ note' = [note EXCEPT !.limbs = @ + 1]

Init == BaseInit /\ note = [histories |-> 0, beyond_limit |-> 0, outlines |-> 0, branches |-> 0, limbs |-> 0]
Next == On("stitch", Stitch) \/ On("limb", Limb) \/ On("onlimb", OnLimb) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
