--------------------------- MODULE TraceMultipole --------------------------
(***************************************************************************)
(* C09: the multipole magnification of an extended source.                 *)
(*                                                                         *)
(* Around a position w off the caustic every image k is a smooth function  *)
(* of the source position, and so is its signed magnification A_k = 1/detJ *)
(* (the parity is its sign).  The average of A_k over a disk of radius rho *)
(* with the brightness profile 1 - G(1 - 3/2 sqrt(1 - u^2)) is             *)
(*     A_k + rho^2/8  (1 - G/5) Lap A_k                                    *)
(*         + rho^4/192 (1 - 11 G/35) Lap^2 A_k + O(rho^6).                 *)
(* The specification follows each image: it polishes the image of w and    *)
(* of the points of three rings of radius h and h/2 around it by Newton    *)
(* steps on the lens equation (34 digits), and takes the moments           *)
(*     A2 = Lap A h^2/4 and A4 = Lap^2 A h^4/64  by Gould's 13-point rule. *)
(***************************************************************************)
EXTENDS TraceBase, Images
VARIABLES note
vars == <<l, bad, note>>

(* Newton step for LensMap(z) = w: solve dz + conj(S) conj(dz) = w - LensMap(z) *)
Newton(L, w, z) ==
  With(<<CSub(w, LensMap(L, z)), Shear(L, z)>>,
       LAMBDA x : CAdd(z, CScale(DDiv(1, DSub(1, CAbs2(x[2]))), CSub(x[1], CMul(CConj(x[2]), CConj(x[1]))))))
Track(L, w, z0) == FoldLeft(LAMBDA z, k : Newton(L, w, z), z0, <<1, 2, 3>>)
Signed(L, z) == DDiv(1, DetJac(L, z))

H == "1e-6"
Half == "0.70710678118654752440084436210484904"
Plus == <<C(1, 0), C(0, 1), C(-1, 0), C(0, -1)>>
Cross == <<C(Half, Half), C(DNeg(Half), Half), C(DNeg(Half), DNeg(Half)), C(Half, DNeg(Half))>>
Ring(L, w, z0, h, dirs) ==
  DMul("0.25", FoldLeft(LAMBDA acc, e : DAdd(acc, With(Track(L, CAdd(w, CScale(h, e)), z0), LAMBDA z : Signed(L, z))), 0, dirs))
(* <<A, A2/h^2, A4/h^4>> of the image at z, from A and the mean excess of A on the rings *)
Gould(a, hp, pl, cr) ==
  With(DDiv(DSub(DMul(16, DSub(hp, a)), DSub(pl, a)), 3),
       LAMBDA a2 : <<a, DDiv(a2, DMul(H, H)),
                     DDiv(DSub(DSub(DMul("0.5", DAdd(pl, cr)), a), a2), DMul(DMul(H, H), DMul(H, H)))>>)
Moments(L, w, z0) ==
  With(Track(L, w, Track(L, w, z0)),
       LAMBDA z : With(<<Signed(L, z), Ring(L, w, z, DMul("0.5", H), Plus), Ring(L, w, z, H, Plus), Ring(L, w, z, H, Cross)>>,
                       LAMBDA r : Gould(r[1], r[2], r[3], r[4])))
Gamma(u1) == DDiv(DMul(2, u1), DSub(3, u1))
(* <<A, quadrupole, hexadecapole>> *)
Terms(m, rho, u1) ==
  LET r2 == DMul(rho, rho) G == Gamma(u1)
  IN <<m[1], DMul("0.5", DMul(DMul(m[2], r2), DSub(1, DDiv(G, 5)))),
       DDiv(DMul(DMul(m[3], DMul(r2, r2)), DSub(1, DDiv(DMul(11, G), 35))), 3)>>
Total(t) == DAbs(DAdd(t[1], DAdd(t[2], t[3])))
Size(t) == DAdd(DAbs(t[2]), DAbs(t[3]))
Sum(S, f(_)) == FoldSet(LAMBDA k, acc : DAdd(acc, f(k)), 0, S)

(* The ring resolves A_k, and rounding of the image position does not matter, unless *)
(* the caustic is very close (A and its derivatives vary there on the scale of its distance). *)
Clean(m) == DLe(DAbs(m[1]), "1e3") /\ DLe(DAbs(m[3]), DMul("1e12", DAbs(m[1])))
(* (faint images sit next to a lens, where the solver finds them less precisely) *)
Close(x, ref, t) == DLe(DAbs(DSub(x, ref)), DAdd("1e-9", DMul("1e-5", DAdd(DMul("1e-3", DAbs(t[1])), DAdd(DAbs(t[2]), DAbs(t[3]))))))

(* one evaluation: image positions z, mask; parts[k] = <<mu, residual>> with image k alone *)
Multi(e) ==
  \E L \in {Lenses(e.g)}, S \in {{k \in DOMAIN e.z : e.mask[k]}} :
  \E cert \in {Certified(e.g, e.w, e.roots) /\ Clear(L, e.w, e.roots) /\ Cardinality(S) = Cardinality(Which(L, e.w, e.roots))} :
  \E mo \in {[k \in S |-> Moments(L, e.w, e.z[k])]} :
  \E t \in {[k \in S |-> Terms(mo[k], e.rho, e.u1)]} :
     LET ok == cert /\ \A k \in S : Clean(mo[k])
         all == <<Sum(S, LAMBDA k : DAbs(t[k][1])), Sum(S, LAMBDA k : DAbs(t[k][2])), Sum(S, LAMBDA k : DAbs(t[k][3]))>>
     IN /\ Verdict(Clause("Finite", DFinite(e.mu) /\ DFinite(e.res))
                   \cup (IF ~ok THEN {} ELSE
                          Clause("SumOfImages", Close(e.mu, Sum(S, LAMBDA k : Total(t[k])), all))
                          \cup Clause("Residual", Close(e.res, Sum(S, LAMBDA k : Size(t[k])), all))
                          \cup Clause("EachImage", \A k \in S : Close(e.parts[k][1], Total(t[k]), t[k]))
                          \cup Clause("EachResidual", \A k \in S : Close(e.parts[k][2], Size(t[k]), t[k]))
                          \cup Clause("MaskedImagesIgnored", \A k \in DOMAIN e.z \ S : DEq(e.parts[k][1], 0) /\ DEq(e.parts[k][2], 0))))
        /\ note' = IF ok THEN [note EXCEPT !.certified = @ + 1, !.images = @ + Cardinality(S)]
                   ELSE [note EXCEPT !.unclear = @ + 1]
(* the same positions evaluated in another arrangement *)
Same(e) == /\ Verdict(Clause(e.why, Len(e.x) = Len(e.y) /\ \A k \in DOMAIN e.x : DClose(e.x[k], e.y[k], "1e-9", "1e-12")))
           /\ UNCHANGED note

Init == BaseInit /\ note = [certified |-> 0, unclear |-> 0, images |-> 0]
Next == On("multi", Multi) \/ On("same", Same) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
