-------------------------------- MODULE Lens -------------------------------
(***************************************************************************)
(* The physical system: one, two or three point lenses.  All positions are *)
(* in the frame users see: the centre of mass of the first two lenses.     *)
(*   g = [n |-> 1]                                                         *)
(*   g = [n |-> 2, s, q]                lens 1 (mass 1), lens 2 (mass q)   *)
(*   g = [n |-> 3, s, q, q3, r3, psi]   lens 3 at r3 e^{i psi} from the    *)
(*                                      mid-point of lenses 1 and 2        *)
(***************************************************************************)
EXTENDS Cx, SequencesExt, TLC

Shift(g) == IF g.n = 1 THEN 0 ELSE DDiv(DMul(DMul("0.5", g.s), DSub(1, g.q)), DAdd(1, g.q))
TotalMass(g) == CASE g.n = 1 -> 1 [] g.n = 2 -> DAdd(1, g.q) [] g.n = 3 -> DAdd(DAdd(1, g.q), g.q3)
Lenses(g) ==
  LET xc == Shift(g)  M == TotalMass(g)  h == DMul("0.5", g.s)
      l1 == [z |-> C(DSub(xc, h), 0), m |-> DDiv(1, M)]
      l2 == [z |-> C(DAdd(xc, h), 0), m |-> DDiv(g.q, M)]
      p3 == CPolar(g.r3, g.psi)
      l3 == [z |-> C(DAdd(xc, p3[1]), p3[2]), m |-> DDiv(g.q3, M)]
  IN CASE g.n = 1 -> <<[z |-> CZero, m |-> 1]>>
       [] g.n = 2 -> <<l1, l2>>
       [] g.n = 3 -> <<l1, l2, l3>>

(* Deflection sum m_j/(conj z - conj z_j), lens map and Jacobian, L = Lenses(g) *)
LensMap(L, z) ==
  CSub(z, FoldLeft(LAMBDA acc, e : CAdd(acc, CScale(e.m, CDiv(COne, CConj(CSub(z, e.z))))), CZero, L))
(* sum m_j/(z - z_j)^2 *)
Shear(L, z) == FoldLeft(LAMBDA acc, e : CAdd(acc, CScale(e.m, CDiv(COne, CSq(CSub(z, e.z))))), CZero, L)
DetJac(L, z) == DSub(1, CAbs2(Shear(L, z)))

(***************************************************************************)
(* Elimination of conj(z): with d_i(z) = prod-free form                    *)
(*   D_i(t) = (conj w - conj z_i) P(t) + sum_j m_j prod_{k#j}(t - z_k)     *)
(* the image polynomial of degree N^2 + 1 is                               *)
(*   E(t) = (t - w) prod_i D_i(t) - sum_i m_i P(t) prod_{k#i} D_k(t).      *)
(***************************************************************************)
ProdExcept(seq, i) == FoldLeft(LAMBDA acc, k : IF k = i THEN acc ELSE CMul(acc, seq[k]), COne, [k \in 1..Len(seq) |-> k])
Elim(L, w, t) ==
  LET n == Len(L)
      d == TLCEval([j \in 1..n |-> CSub(t, L[j].z)])
      P == ProdExcept(d, 0)
      Q == FoldLeft(LAMBDA acc, j : CAdd(acc, CScale(L[j].m, ProdExcept(d, j))), CZero, [j \in 1..n |-> j])
      D == TLCEval([i \in 1..n |-> CAdd(CMul(CConj(CSub(w, L[i].z)), P), Q)])
  IN CSub(CMul(CSub(t, w), ProdExcept(D, 0)),
          FoldLeft(LAMBDA acc, i : CAdd(acc, CScale(L[i].m, CMul(P, ProdExcept(D, i)))), CZero, [i \in 1..n |-> i]))
(* leading coefficient of E *)
ElimLead(L, w) == FoldLeft(LAMBDA acc, e : CMul(acc, CConj(CSub(w, e.z))), COne, L)
FromRoots(lead, zs, t) == FoldLeft(LAMBDA acc, z : CMul(acc, CSub(t, z)), lead, zs)
=============================================================================
