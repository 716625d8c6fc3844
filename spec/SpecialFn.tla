----------------------------- MODULE SpecialFn -----------------------------
(***************************************************************************)
(* Reference definitions of the special functions, in 34-digit arithmetic  *)
(* and by methods other than the code's.                                   *)
(***************************************************************************)
EXTENDS Cx, SequencesExt, TLC
Upto(n) == [k \in 1..n |-> k]

(* Complete elliptic integrals of parameter m < 1: arithmetic-geometric mean *)
AgmStep(st) ==
  LET a == st[1]  b == st[2]
  IN TLCEval(<<DDiv(DAdd(a, b), 2), DSqrt(DMul(a, b)), DAdd(st[3], DMul(st[4], DSq(DDiv(DSub(a, b), 2)))), DMul(2, st[4])>>)
Agm(m) == FoldLeft(LAMBDA st, k : AgmStep(st), <<1, DSqrt(DSub(1, m)), DDiv(m, 2), 1>>, Upto(10))
EllK(m) == DDiv(DPi, DMul(2, Agm(m)[1]))
EllE(m) == LET g == TLCEval(Agm(m)) IN DMul(DDiv(DPi, DMul(2, g[1])), DSub(1, g[3]))
EllKd(m) == IF DEq(m, 0) THEN DDiv(DPi, 8) ELSE DDiv(DSub(EllE(m), DMul(DSub(1, m), EllK(m))), DMul(2, DMul(m, DSub(1, m))))
EllEd(m) == IF DEq(m, 0) THEN DNeg(DDiv(DPi, 8)) ELSE DDiv(DSub(EllE(m), EllK(m)), DMul(2, m))

(* Bessel functions of integer order: ascending series up to 20, Hankel's expansion beyond *)
SeriesStep(n, z, st, k) == TLCEval(<<DAdd(st[1], st[2]), DNeg(DDiv(DMul(st[2], z), DMul(k, k + n)))>>)
BesselSeries(n, x) ==
  LET h == DDiv(x, 2)
      lead == CASE n = 0 -> 1 [] n = 1 -> h [] n = 2 -> DDiv(DSq(h), 2)
  IN FoldLeft(LAMBDA st, k : SeriesStep(n, DSq(h), st, k), <<0, lead>>, Upto(60))[1]
(* a_k(n)/x^k of Hankel's expansion *)
HankelStep(n, x, st, k) ==
  LET a == DMul(st[2], DDiv(DSub(4 * n * n, (2 * k - 1) * (2 * k - 1)), DMul(8 * k, x)))
  IN TLCEval(CASE k % 4 = 0 -> <<<<DAdd(st[1][1], a), st[1][2]>>, a>>
               [] k % 4 = 1 -> <<<<st[1][1], DAdd(st[1][2], a)>>, a>>
               [] k % 4 = 2 -> <<<<DSub(st[1][1], a), st[1][2]>>, a>>
               [] k % 4 = 3 -> <<<<st[1][1], DSub(st[1][2], a)>>, a>>)
BesselLarge(n, x) ==
  LET pq == FoldLeft(LAMBDA st, k : HankelStep(n, x, st, k), <<<<1, 0>>, 1>>, Upto(20))[1]
      \* reduce the phase before the double-precision cosine
      chi == DMod(DSub(x, DMul(DPi, DAdd(DDiv(n, 2), "0.25"))), DMul(2, DPi))
  IN DMul(DSqrt(DDiv(2, DMul(DPi, x))), DSub(DMul(pq[1], DCos(chi)), DMul(pq[2], DSin(chi))))
BesselPos(n, x) == IF DLe(x, 20) THEN BesselSeries(n, x) ELSE BesselLarge(n, x)
Bessel(n, x) == IF DLe(0, x) THEN BesselPos(n, x) ELSE IF n % 2 = 0 THEN BesselPos(n, DNeg(x)) ELSE DNeg(BesselPos(n, DNeg(x)))
(* J_{3/2}: sin x / x - cos x as a series up to 1, directly beyond *)
OddStep(z, st, k) == TLCEval(<<DAdd(st[1], DMul(2 * k, st[2])), DNeg(DDiv(DMul(st[2], z), (2 * k + 2) * (2 * k + 3)))>>)
J15Core(x) == IF DLe(x, 1) THEN FoldLeft(LAMBDA st, k : OddStep(DSq(x), st, k), <<0, DDiv(DSq(x), 6)>>, Upto(14))[1]
              ELSE DSub(DDiv(DSin(DMod(x, DMul(2, DPi))), x), DCos(DMod(x, DMul(2, DPi))))
Bessel15(x) == DMul(DSqrt(DDiv(2, DMul(DPi, x))), J15Core(x))

(* Gamma function: Stirling's series after moving 70 to the right *)
CLn(z) == C(DLn(CAbs(z)), DAtan2(z[2], z[1]))
CExp(z) == CPolar(DExp(z[1]), DMod(z[2], DMul(2, DPi)))
CShift(z, k) == CAdd(z, C(k, 0))
N0 == 70
StirlingTail(t) ==
  LET i == CDiv(COne, t)  i2 == CSq(i)
      p == CAdd(C(DDiv(1, 12), 0), CMul(i2, CAdd(C(DDiv(-1, 360), 0), CMul(i2, CAdd(C(DDiv(1, 1260), 0), CScale(DDiv(-1, 1680), i2))))))
  IN CMul(i, p)
LnGammaFar(t) == CAdd(CSub(CMul(CSub(t, C("0.5", 0)), CLn(t)), t), CAdd(C(DDiv(DLn(DMul(2, DPi)), 2), 0), StirlingTail(t)))
Rising(z, n) == FoldLeft(LAMBDA acc, k : TLCEval(CMul(acc, CShift(z, k - 1))), COne, Upto(n))
GammaC(z) == CDiv(CExp(LnGammaFar(CShift(z, N0))), Rising(z, N0))
DigammaC(z) ==
  LET t == CShift(z, N0)  i == CDiv(COne, t)  i2 == CSq(i)
      far == CSub(CSub(CLn(t), CScale("0.5", i)),
                  CMul(i2, CAdd(C(DDiv(1, 12), 0), CMul(i2, CAdd(C(DDiv(-1, 120), 0), CScale(DDiv(1, 252), i2))))))
  IN FoldLeft(LAMBDA acc, k : TLCEval(CSub(acc, CDiv(COne, CShift(z, k - 1)))), far, Upto(N0))
=============================================================================
