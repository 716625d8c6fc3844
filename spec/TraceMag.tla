------------------------------ MODULE TraceMag -----------------------------
(***************************************************************************)
(* C02: the point-source magnification is the sum over all images of       *)
(* 1/|det J|, and it respects the symmetries of the lens.                  *)
(***************************************************************************)
EXTENDS TraceBase, Images
VARIABLES note
vars == <<l, bad, note>>

(* Rounding in an image position is amplified by the magnification itself. *)
Tol(m) == DAdd(DMul("1e-6", m), DMul("1e-10", DMul(m, DMul(m, m))))
Agree(m, ref) == DLe(DAbs(DSub(m, ref)), Tol(ref))
Cert(e) == Certified(e.g, e.w, e.roots) /\ Clear(TLCEval(Lenses(e.g)), e.w, e.roots)

Mag(e) ==
  /\ LET L == TLCEval(Lenses(e.g))  S == Which(L, e.w, e.roots)  cert == Cert(e)
         ref == TLCEval(DStr(PointMag(L, S, e.roots)))
     IN /\ Verdict(Clause("Finite", DFinite(e.mag))
                   \cup Clause("AtLeastOne", DLe("0.999999", e.mag))
                   \cup (IF ~cert THEN {} ELSE
                          Clause("SumOverImages", Agree(e.mag, ref))
                          \* Witt & Mao: five images of a binary lens mean at least threefold magnification
                          \cup Clause("InsideCausticAtLeast3", (e.g.n = 2 /\ Cardinality(S) = 5) => DLe("2.999999", e.mag))))
        /\ note' = IF cert THEN [note EXCEPT !.certified = @ + 1] ELSE [note EXCEPT !.unclear = @ + 1]

(* Two runs on configurations that the specification itself knows to be equivalent *)
SameLens(e) ==
  LET A == TLCEval(Lenses(e.g))  B == TLCEval(Lenses(e.h))
      \* image of a lens position relative to the source
      Rel(Z, w) == CSub(Z, w)
      Near(a, b) == CNear(a, b, "1e-9")
      Match(f(_), idx) == \A k \in DOMAIN idx : Near(f(Rel(A[k].z, e.w)), Rel(B[idx[k]].z, e.v)) /\ DNear(A[k].m, B[idx[k]].m, "1e-12")
  IN CASE e.kind = "mirror" -> Match(CConj, [k \in DOMAIN A |-> k])
       [] e.kind = "swap" -> Match(CNeg, <<2, 1>>)
       [] e.kind = "swap3" -> Match(CNeg, <<2, 1, 3>>)
       [] e.kind = "massless" -> \A k \in 1..2 : Near(A[k].z, B[k].z) /\ DNear(A[k].m, B[k].m, "1e-12") /\ DEq(A[3].m, 0)
       [] e.kind = "turn" -> DNear(CAbs(e.w), CAbs(e.v), "1e-12")
Pair(e) ==
  /\ Verdict(Clause("SymmetrySetup", SameLens(e)) \cup Clause("Symmetry_" \o e.kind, Agree(e.m, e.n)))
  /\ UNCHANGED note
Same(e) ==
  /\ Verdict(Clause(e.why, DClose(e.x, e.y, "1e-9", "1e-9"))) /\ UNCHANGED note
Shape(e) ==
  /\ Verdict(Clause("Shape", e.want = e.got)) /\ UNCHANGED note

Init == BaseInit /\ note = [certified |-> 0, unclear |-> 0]
Next == On("mag", Mag) \/ On("pair", Pair) \/ On("same", Same) \/ On("shape", Shape) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
