---------------------------- MODULE TraceSpecial ---------------------------
(* C16: special functions and their derivatives. *)
EXTENDS TraceBase, SpecialFn
VARIABLES note

Cond(m) == DDiv(1, DSub(1, m))
EllEv(e) ==
  /\ LET k == EllK(e.m)  ee == EllE(e.m)
         \* five steps of the code's mean are exact to 1e-12 for -1e3 <= m <= 0.999
         rel == "2e-11"
     IN Verdict(Clause("EllipticK", DClose(e.k, k, rel, 0)) \cup Clause("EllipticE", DClose(e.e, ee, rel, 0))
                \cup Clause("EllipticKDerivative", DClose(e.dk, EllKd(e.m), "1e-7", "1e-9"))
                \cup Clause("EllipticEDerivative", DClose(e.de, EllEd(e.m), "1e-7", "1e-9")))
  /\ note' = [note EXCEPT !.judged = @ + 4]
BesselEv(e) ==
  /\ Verdict(Clause("J" \o ToString(e.n), DNear(e.y, Bessel(e.n, e.x), "2e-14"))
             \cup (IF e.n = 2 THEN {} ELSE
                   Clause("J" \o ToString(e.n) \o "Derivative",
                     DNear(e.d, IF e.n = 0 THEN DNeg(Bessel(1, e.x))
                                ELSE IF DEq(e.x, 0) THEN "0.5" ELSE DSub(Bessel(0, e.x), DDiv(Bessel(1, e.x), e.x)), "2e-13"))))
  /\ note' = [note EXCEPT !.judged = @ + 2]
HalfEv(e) ==
  /\ Verdict(Clause("J3/2", DNear(e.y, Bessel15(e.x), DMul("2e-14", DAdd(1, DSqrt(DDiv(1, e.x)))))))
  /\ note' = [note EXCEPT !.judged = @ + 1]
GammaEv(e) ==
  /\ LET g == TLCEval(GammaC(e.z))  d == CMul(g, DigammaC(e.z))
     IN Verdict(Clause("Gamma", DLe(CAbs(CSub(e.y, g)), DMul("1e-10", CAbs(g))))
                \cup Clause("GammaDerivative", DLe(CAbs(CSub(e.d, d)), DAdd(DMul("1e-10", CAbs(d)), DMul("1e-11", CAbs(g))))))
  /\ note' = [note EXCEPT !.judged = @ + 2]
PoleEv(e) == /\ Verdict(Clause("GammaPole", ~DFinite(e.y[1]))) /\ UNCHANGED note
Init == BaseInit /\ note = [judged |-> 0]
Next == On("ell", EllEv) \/ On("bessel", BesselEv) \/ On("half", HalfEv) \/ On("gamma", GammaEv) \/ On("pole", PoleEv)
        \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
