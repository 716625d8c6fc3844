------------------------------- MODULE LensDot ------------------------------
(***************************************************************************)
(* Derivatives of the point-source magnification.  A displacement d of the *)
(* parameters has the same fields as the configuration, plus w.            *)
(***************************************************************************)
EXTENDS Images

ShiftDot(g, d) == IF g.n = 1 THEN 0 ELSE
  DSub(DDiv(DMul(DMul("0.5", d.s), DSub(1, g.q)), DAdd(1, g.q)), DDiv(DMul(g.s, d.q), DSq(DAdd(1, g.q))))
TotalMassDot(g, d) == CASE g.n = 1 -> 0 [] g.n = 2 -> d.q [] g.n = 3 -> DAdd(d.q, d.q3)
(* displacement of the mass fraction k/M when k is displaced by kd *)
FracDot(k, kd, M, Md) == DDiv(DSub(kd, DMul(DDiv(k, M), Md)), M)
LensesDot(g, d) ==
  LET xd == ShiftDot(g, d)  M == TotalMass(g)  Md == TotalMassDot(g, d)  hd == DMul("0.5", d.s)
      pd == CMul(C(d.r3, DMul(g.r3, d.psi)), CPolar(1, g.psi))
  IN CASE g.n = 1 -> <<[z |-> CZero, m |-> 0]>>
       [] g.n = 2 -> <<[z |-> C(DSub(xd, hd), 0), m |-> FracDot(1, 0, M, Md)], [z |-> C(DAdd(xd, hd), 0), m |-> FracDot(g.q, d.q, M, Md)]>>
       [] g.n = 3 -> <<[z |-> C(DSub(xd, hd), 0), m |-> FracDot(1, 0, M, Md)], [z |-> C(DAdd(xd, hd), 0), m |-> FracDot(g.q, d.q, M, Md)],
                       [z |-> CAdd(C(xd, 0), pd), m |-> FracDot(g.q3, d.q3, M, Md)]>>

SumOver(n, f(_)) == FoldLeft(LAMBDA acc, j : CAdd(acc, f(j)), CZero, [j \in 1..n |-> j])
Cube(a) == CMul(a, CSq(a))
(* The image at z follows the lens equation w = z - sum m_j / conj(z - z_j):          *)
(*   w' + sum m_j' / conj(u_j) + conj(sum m_j z_j' / u_j^2) = z' + conj(S z')         *)
ImageDot(L, Ld, wd, z, S) ==
  LET n == Len(L)  u == TLCEval([j \in 1..n |-> CSub(z, L[j].z)])
      A == SumOver(n, LAMBDA j : CScale(Ld[j].m, CDiv(COne, CConj(u[j]))))
      B == SumOver(n, LAMBDA j : CScale(L[j].m, CDiv(Ld[j].z, CSq(u[j]))))
  IN With(CAdd(wd, CAdd(A, CConj(B))), LAMBDA R : CScale(DDiv(1, DSub(1, CAbs2(S))), CSub(R, CMul(CConj(S), CConj(R)))))
ShearDot(L, Ld, z, zd) ==
  SumOver(Len(L), LAMBDA j : With(CSub(z, L[j].z), LAMBDA u :
     CSub(CScale(Ld[j].m, CDiv(COne, CSq(u))), CScale(DMul(2, L[j].m), CDiv(CSub(zd, Ld[j].z), Cube(u))))))
(* displacement of 1/|det J| at one image *)
ImageMagDot(L, Ld, wd, z) ==
  With(Shear(L, z), LAMBDA S :
   With(ImageDot(L, Ld, wd, z, S), LAMBDA zd :
    With(ShearDot(L, Ld, z, zd), LAMBDA Sd :
     LET det == DSub(1, CAbs2(S))
         detd == DMul(-2, DAdd(DMul(S[1], Sd[1]), DMul(S[2], Sd[2])))
     IN DStr(DMul(IF DLe(0, det) THEN -1 ELSE 1, DDiv(detd, DSq(det)))))))
PointMagDot(L, Ld, wd, idx, zs) == DSum([k \in 1..Len(idx) |-> ImageMagDot(L, Ld, wd, zs[idx[k]])])
(* sum of the moduli of the terms, which bounds what rounding can do *)
PointMagDotSize(L, Ld, wd, idx, zs) == DSum([k \in 1..Len(idx) |-> DAbs(ImageMagDot(L, Ld, wd, zs[idx[k]]))])
=============================================================================
