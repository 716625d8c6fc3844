----------------------------- MODULE TraceFast -----------------------------
(* C15: FFT-based finite-source magnification and the transforms behind it. *)
EXTENDS TraceBase, DiskMag
VARIABLES note

MagEv(e) ==
  /\ LET ok(i) == LET ref == Mag(e.profile, e.a1, e.u[i], e.rho)
                      x == DDiv(e.u[i], e.rho)
                      edge == DLe("0.9", x) /\ DLe(x, "1.15")
                  IN DLe(DAbs(DSub(e.mag[i], ref)), DMul(ref, IF DEq(e.u[i], 0) THEN "2e-5" ELSE IF edge THEN "9e-3" ELSE "1.3e-3"))
     IN Verdict(Clause("Magnification_" \o e.cls, Len(e.mag) = Len(e.u) /\ \A i \in DOMAIN e.u : ok(i)))
  /\ note' = [note EXCEPT !.magnifications = @ + Len(e.u)]
(* lists that must agree *)
SameEv(e) ==
  /\ Verdict(Clause(e.why, Len(e.x) = Len(e.y) /\ \A i \in DOMAIN e.x : DClose(e.x[i], e.y[i], e.rel, "0")))
  /\ UNCHANGED note
(* transforms with closed forms *)
Y2(y) == DAdd(1, DSq(y))
Closed(kind, y) ==
  CASE kind = "hankel_gauss" -> DExp(DNeg(DDiv(DSq(y), 2)))                      \* f = x^2 e^{-x^2/2}, J0
    [] kind = "hankel_exp" -> DDiv(1, DMul(Y2(y), DSqrt(Y2(y))))                 \* f = x^2 e^{-x}, J0
    [] kind = "hankel1_exp" -> DDiv(y, DMul(Y2(y), DSqrt(Y2(y))))                \* f = x^2 e^{-x}, J1
    [] kind = "j0" -> DDiv(1, Y2(y))                                             \* f = x^2 e^{-x}, j0
    [] kind = "dj0" -> DDiv(DMul(-2, y), DSq(Y2(y)))                             \* f = x^3 e^{-x}, j0'
    [] kind = "ddj0" -> DDiv(DSub(DMul(6, DSq(y)), 2), DMul(Y2(y), DSq(Y2(y))))  \* f = x^4 e^{-x}, j0''
    [] kind = "jsqr0" -> DDiv(2, DAdd(1, DMul(4, DSq(y))))                       \* f = x^3 e^{-x}, j0^2
TransEv(e) ==
  /\ Verdict(Clause("Transform_" \o e.kind \o "_" \o e.impl,
        Len(e.y) = Len(e.F) /\ \A i \in DOMAIN e.y : DNear(e.F[i], Closed(e.kind, e.y[i]), IF e.kind = "jsqr0" THEN "1e-4" ELSE "2e-6")))
  /\ note' = [note EXCEPT !.transforms = @ + Len(e.y)]
Init == BaseInit /\ note = [magnifications |-> 0, transforms |-> 0]
Next == On("mag", MagEv) \/ On("same", SameEv) \/ On("trans", TransEv) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
