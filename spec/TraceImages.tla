---------------------------- MODULE TraceImages ----------------------------
(***************************************************************************)
(* C01: the point-source image solver, replayed event by event.            *)
(* path remembers the image count at the previous position of a            *)
(* trajectory: images appear and disappear only in pairs.                  *)
(***************************************************************************)
EXTENDS TraceBase, Images
VARIABLES path, note
vars == <<l, bad, path, note>>

(* z, mask: what the solver returned, in the user frame; roots: certified list *)
Judge(g, w, z, mask, roots) ==
  LET L == TLCEval(Lenses(g))
      true == Which(L, w, roots)
      got == {k \in DOMAIN z : mask[k]}
      cert == Certified(g, w, roots) /\ Clear(L, w, roots)
      \* an image so faint that it does not matter for any observable
      Bright(k) == DLt("1e-5", DDiv(1, DAbs(DetJac(L, roots[k]))))
  IN Clause("Shape", Len(z) = Degree(g) /\ Len(mask) = Len(z))
     \cup Clause("SolvesLensEquation",
            \A k \in got : CFinite(z[k]) /\ (DLe(Residual(L, w, z[k]), IF cert THEN "1e-6" ELSE Accepted(g.n)) \/ DLe(DDiv(1, DAbs(DetJac(L, z[k]))), "1e-5")))
     \cup (IF ~cert THEN {} ELSE
            Clause("EveryImageReturned", \A k \in true : Bright(k) => \E j \in got : CNear(z[j], roots[k], "1e-5"))
            \cup Clause("NoGhostReturned", \A j \in got : \E k \in true : CNear(z[j], roots[k], "1e-5"))
            \cup Clause("NoImageTwice", Cardinality(got) <= Cardinality(true))
            \cup Clause("LegalCount", LegalCount(g.n, Cardinality(true)))
            \cup Clause("Parity", (\A k \in true : Bright(k)) /\ Cardinality(got) = Cardinality(true)
                                   => ParitySum(L, got, z) = 1 - g.n))
Cert(e) == Certified(e.g, e.w, e.roots) /\ Clear(TLCEval(Lenses(e.g)), e.w, e.roots)

Solve(e) ==
  /\ Verdict(Judge(e.g, e.w, e.z, e.mask, e.roots))
  /\ note' = IF Cert(e) THEN [note EXCEPT !.certified = @ + 1] ELSE [note EXCEPT !.unclear = @ + 1]
  /\ UNCHANGED path

(* One position of a tracked trajectory: in addition the count moved by an even number *)
Track(e) ==
  /\ LET c == Cardinality({k \in DOMAIN e.z : e.mask[k]}) IN
     /\ Verdict(Judge(e.g, e.w, e.z, e.mask, e.roots)
                \cup Clause("PairwiseBirth", (Cert(e) /\ path.id = e.path /\ path.clear) => (c - path.n) % 2 = 0))
     /\ path' = [id |-> e.path, n |-> c, clear |-> Cert(e)]
     /\ note' = IF Cert(e) THEN [note EXCEPT !.certified = @ + 1] ELSE [note EXCEPT !.unclear = @ + 1]

(* lens_eq / lens_eq_det_jac at a point, both already in the user frame *)
Map(e) ==
  /\ LET L == TLCEval(Lenses(e.g)) IN
     Verdict(Clause("LensMap", CNear(e.w, LensMap(L, e.z), DMul("1e-11", DAdd(1, CAbs(LensMap(L, e.z))))))
             \cup Clause("Jacobian", DNear(e.det, DetJac(L, e.z), DMul("1e-11", DAdd(1, CAbs2(Shear(L, e.z)))))))
  /\ UNCHANGED <<path, note>>

Init == BaseInit /\ path = [id |-> "none", n |-> 0, clear |-> FALSE] /\ note = [certified |-> 0, unclear |-> 0]
Next == On("images", Solve) \/ On("track", Track) \/ On("map", Map) \/ (FaultStep /\ UNCHANGED <<path, note>>)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
