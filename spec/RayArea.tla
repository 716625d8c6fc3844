------------------------------ MODULE RayArea ------------------------------
(***************************************************************************)
(* The magnification of a disk-shaped source, from its definition.         *)
(*                                                                         *)
(* The images of a disk of radius rho about w are the points z of the      *)
(* image plane with |LensMap(z) - w| < rho; the magnification is their     *)
(* area (weighted with the brightness) over that of the source.  Along the *)
(* ray z = r e^{i theta} the condition is F(r) < 0 with the polynomial     *)
(*    F = |N|^2 - rho^2 |P|^2,  P = prod d_i,  d_i = conj(z - z_i),        *)
(*    N = (z - w) P - sum_i m_i prod_{k # i} d_k                           *)
(* of degree 2 n + 2, so the image region on a ray is a union of intervals *)
(* between its positive roots.  A trace supplies roots; they are believed  *)
(* only if they reproduce F.  The turn is cut at the angles supplied by    *)
(* the trace and each piece integrated by a Gauss rule in t,               *)
(* theta = a + (b - a) sin^2(pi t/2), which is regular at both ends when   *)
(* an image begins or ends there.                                          *)
(***************************************************************************)
EXTENDS Lens, FiniteSets, FiniteSetsExt

(* pairs <<sin^2(pi t/2), weight>> for the 12 and 8 point Gauss rules in t on [0, 1] *)
Rule12 == <<<<"0.0002097207286159579", "0.0010730254348021448">>,
   <<"0.005660301300117085", "0.012602145332097392">>,
   <<"0.03230500949427717", "0.04445868376550043">>,
   <<"0.10142598485609562", "0.09634418371362675">>,
   <<"0.22691367497797715", "0.15361626816916676">>,
   <<"0.4022750493516924", "0.19190569358480616">>,
   <<"0.5977249506483076", "0.1919056935848062">>,
   <<"0.7730863250220229", "0.15361626816916676">>,
   <<"0.8985740151439043", "0.0963441837136268">>,
   <<"0.9676949905057227", "0.04445868376550046">>,
   <<"0.9943396986998829", "0.01260214533209737">>,
   <<"0.999790279271384", "0.001073025434802157">>>>
Rule8 == <<<<"0.0009723930747465976", "0.0049560138075433096">>,
   <<"0.025287307850590565", "0.05484123566760755">>,
   <<"0.13255503062228383", "0.16709469807274427">>,
   <<"0.3579160380490356", "0.27310805245210334">>,
   <<"0.6420839619509642", "0.2731080524521034">>,
   <<"0.8674449693777161", "0.1670946980727443">>,
   <<"0.9747126921494094", "0.054841235667607596">>,
   <<"0.9990276069252535", "0.004956013807543312">>>>

RayDegree(L) == 2 * Len(L) + 2
Angle(a, b, k) == DAdd(a, DMul(DSub(b, a), Rule12[k][1]))
(* <<F(r), |P|^2>> on the ray e = <<cos, sin>> *)
RayF(L, w, rho2, e, r) ==
  LET z == CScale(r, e)
      d == TLCEval([i \in DOMAIN L |-> CConj(CSub(z, L[i].z))])
      P == ProdExcept(d, 0)
      N == CSub(CMul(CSub(z, w), P),
                FoldLeft(LAMBDA acc, i : CAdd(acc, CScale(L[i].m, ProdExcept(d, i))), CZero, [i \in 1..Len(L) |-> i]))
      p2 == CAbs2(P)
  IN <<DSub(CAbs2(N), DMul(rho2, p2)), p2>>

(* All 2n+2 roots are listed: x the positive real ones in ascending order, o the others *)
CertRay(L, w, rho2, e, ray) ==
  LET n == RayDegree(L)
      nx == Len(ray.x)
      R(k) == DMul("0.37", k)
      FromR(r) == FoldLeft(LAMBDA acc, z : CMul(acc, CSub(C(r, 0), z)),
                           C(FoldLeft(LAMBDA acc, x : DMul(acc, DSub(r, x)), 1, ray.x), 0), ray.o)
      Size(r) == FoldLeft(LAMBDA acc, z : DMul(acc, DAdd(r, CAbs(z))),
                          FoldLeft(LAMBDA acc, x : DMul(acc, DAdd(r, x)), 1, ray.x), ray.o)
  IN /\ nx + Len(ray.o) = n
     /\ nx % 2 = 0
     /\ \A k \in 1..(nx - 1) : DLe(ray.x[k], ray.x[k + 1])
     /\ nx > 0 => DLt(0, ray.x[1])
     /\ \A k \in DOMAIN ray.o : DLe(ray.o[k][1], 0) \/ DLt("1e-9", DAbs(ray.o[k][2]))
     /\ \A k \in 1..n : LET r == R(k)  f == RayF(L, w, rho2, e, r)[1] IN
          CNear(FromR(r), C(f, 0), DMul("1e-11", Size(r)))

Lo(x, k) == IF k = 1 THEN 0 ELSE x[k - 1]
(* Intervals of the ray inside the images: between consecutive roots where F < 0 *)
Inside(L, w, rho2, e, x) ==
  {k \in 1..Len(x) : DLt(RayF(L, w, rho2, e, DMul("0.5", DAdd(Lo(x, k), x[k])))[1], 0)}
(* integral of r dr, and of sqrt(1 - u^2) r dr, u the distance from the source centre in units of rho *)
RayArea1(x, S) == FoldLeft(LAMBDA acc, k : IF k \in S THEN DAdd(acc, DMul("0.5", DSub(DSq(x[k]), DSq(Lo(x, k))))) ELSE acc,
                           0, [k \in 1..Len(x) |-> k])
Limb(L, w, rho2, e, r) == LET f == RayF(L, w, rho2, e, r) IN DSqrt(DMax(0, DDiv(DNeg(f[1]), DMul(rho2, f[2]))))
RayLimb1(L, w, rho2, e, x, S) ==
  FoldLeft(LAMBDA acc, k : IF k \notin S THEN acc ELSE
             LET a == Lo(x, k)  h == DSub(x[k], a) IN
             DAdd(acc, DMul(h, DSum([j \in DOMAIN Rule8 |->
               LET r == DAdd(a, DMul(h, Rule8[j][1])) IN DMul(DMul(Rule8[j][2], r), Limb(L, w, rho2, e, r))]))),
           0, [k \in 1..Len(x) |-> k])

(* One piece [a, b] of the turn: <<certified, area, limb-weighted area>> *)
Piece(L, w, rho2, a, b, rays, limb) ==
  LET R == TLCEval([k \in 1..12 |->
             LET th == Angle(a, b, k)  e == TLCEval(<<DCos(th), DSin(th)>>)  x == rays[k].x
                 ok == CertRay(L, w, rho2, e, rays[k])
                 S == IF ok THEN Inside(L, w, rho2, e, x) ELSE {}
             IN <<ok, IF ok THEN DStr(RayArea1(x, S)) ELSE "0", IF ok /\ limb THEN DStr(RayLimb1(L, w, rho2, e, x, S)) ELSE "0">>])
      h == DSub(b, a)
  IN <<\A k \in 1..12 : R[k][1],
       DStr(DMul(h, DSum([k \in 1..12 |-> DMul(Rule12[k][2], R[k][2])]))),
       DStr(DMul(h, DSum([k \in 1..12 |-> DMul(Rule12[k][2], R[k][3])])))>>

(* mean magnification for the linear limb-darkening law 1 - u1 (1 - sqrt(1 - u^2)) *)
DiskMag(area, limb, rho, u1) ==
  DDiv(DAdd(DMul(DSub(1, u1), area), DMul(u1, limb)), DMul(DMul(DPi, DSq(rho)), DSub(1, DDiv(u1, 3))))
=============================================================================
