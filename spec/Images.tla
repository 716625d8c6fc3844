------------------------------- MODULE Images ------------------------------
(***************************************************************************)
(* What "the images of a point source" are.                                *)
(*                                                                         *)
(* An image of the source w is a solution z of the lens equation           *)
(* LensMap(z) = w.  Eliminating conj(z) turns every solution into a root   *)
(* of a polynomial of degree N^2 + 1, so the full solution set is known    *)
(* once all roots are known.  A trace supplies candidate roots; they are   *)
(* believed only if they reproduce the elimination polynomial (Certified), *)
(* which no incomplete or wrong list does.  The images are then the        *)
(* certified roots that solve the lens equation itself; the other roots    *)
(* are ghosts.                                                             *)
(***************************************************************************)
EXTENDS Lens, FiniteSets

Degree(g) == IF g.n = 1 THEN 2 ELSE g.n * g.n + 1

(* Sample points around the roots; Degree+1 of them fix the polynomial. *)
Samples(g) == [k \in 1..(Degree(g) + 1) |->
                 CAdd(CPolar(DAdd("1.9", DMul("0.13", k)), DMul("2.39996322972865", k)), C("0.11", "-0.07"))]
Certified(g, w, roots) ==
  LET L == TLCEval(Lenses(g))  lead == ElimLead(L, w)  P == Samples(g)
      E == TLCEval([k \in DOMAIN P |-> Elim(L, w, P[k])])
      F == TLCEval([k \in DOMAIN P |-> FromRoots(lead, roots, P[k])])
  IN /\ Len(roots) = Degree(g)
     /\ \A k \in DOMAIN P : CNear(E[k], F[k], DMul("1e-7", DAdd(CAbs(E[k]), CAbs(lead))))

Residual(L, w, z) == CAbs(CSub(LensMap(L, z), w))
IsImage(L, w, z) == DLe(Residual(L, w, z), "1e-6")
(* The three-lens solver is documented to accept residuals up to 1e-3, so for    *)
(* it a source is judged only if its ghosts are well above that.                *)
GhostAbove(n) == IF n = 3 THEN "3e-3" ELSE "2e-5"
IsGhost(L, w, z) == DLt(GhostAbove(Len(L)), Residual(L, w, z))
Accepted(n) == IF n = 3 THEN "1.001e-3" ELSE "1e-6"
Clear(L, w, roots) == \A k \in DOMAIN roots : IsImage(L, w, roots[k]) \/ IsGhost(L, w, roots[k])
Which(L, w, roots) == {k \in DOMAIN roots : IsImage(L, w, roots[k])}

(* Facts of gravitational lensing every image set obeys (Burke, Witt,      *)
(* Rhie, Khavinson & Neumann): total parity 1 - N; N+1 .. 5N-5 images,     *)
(* in steps of two.                                                        *)
ParitySum(L, S, zs) == FoldLeft(LAMBDA acc, k : IF k \in S THEN acc + (IF DLt(0, DetJac(L, zs[k])) THEN 1 ELSE -1) ELSE acc,
                                0, [k \in 1..Len(zs) |-> k])
MinImages(n) == n + 1
MaxImages(n) == IF n = 1 THEN 2 ELSE 5 * n - 5
LegalCount(n, c) == c >= MinImages(n) /\ c <= MaxImages(n) /\ (c - MinImages(n)) % 2 = 0

(* sum over the images of 1/|det J| *)
PointMag(L, S, zs) == FoldLeft(LAMBDA acc, k : IF k \in S THEN DAdd(acc, DDiv(1, DAbs(DetJac(L, zs[k])))) ELSE acc,
                               0, [k \in 1..Len(zs) |-> k])
=============================================================================
