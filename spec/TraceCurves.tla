---------------------------- MODULE TraceCurves ----------------------------
(***************************************************************************)
(* C03: critical curves and caustics.                                      *)
(* The critical curve is {z : |Shear(z)| = 1}; for each phase u = Shear(z) *)
(* it has exactly 2N points, and they are all the roots of                 *)
(*   u prod (t - z_j)^2 - sum_j m_j prod_{k#j} (t - z_k)^2.                *)
(* Sampling u once around the unit circle therefore samples every critical *)
(* curve completely; the caustic is its image under the lens map; and the  *)
(* number of images changes by two exactly across the caustic.             *)
(***************************************************************************)
EXTENDS TraceBase, Images
VARIABLES ca, note

Col(z, k) == [b \in DOMAIN z |-> z[b][k]]
PhasePoly(L, u, t) ==
  LET d == TLCEval([j \in DOMAIN L |-> CSq(CSub(t, L[j].z))])
  IN CSub(CMul(u, ProdExcept(d, 0)),
          FoldLeft(LAMBDA acc, j : CAdd(acc, CScale(L[j].m, ProdExcept(d, j))), CZero, [j \in 1..Len(L) |-> j]))
CurvePts(n) == [k \in 1..(2 * n + 1) |-> CAdd(CPolar(DAdd("1.7", DMul("0.17", k)), DMul("2.39996322972865", k)), C("0.07", "0.05"))]
ColumnComplete(L, u, roots) ==
  \A t \in Range(CurvePts(Len(L))) :
    LET x == TLCEval(PhasePoly(L, u, t)) IN CNear(x, FromRoots(u, roots, t), DMul("1e-7", DAdd(1, CAbs(x))))

MinOver(S, f(_)) == FoldSet(LAMBDA x, acc : DMin(f(x), acc), "1e300", S)
MaxOver(S, f(_)) == FoldSet(LAMBDA x, acc : DMax(f(x), acc), 0, S)

(* Where the branches are well separated compared with the step, the next  *)
(* point of a branch is the nearest one: branches are continuous curves.   *)
Contiguous(z, k) ==
  LET B == DOMAIN z
      D(a, b) == CAbs(CSub(z[a][k], z[b][k]))
      S(a, b) == CAbs(CSub(z[a][k], z[b][k + 1]))
      delta == TLCEval(MaxOver(B, LAMBDA a : MinOver(B, LAMBDA b : S(a, b))))
      sep == MinOver({p \in B \X B : p[1] # p[2]}, LAMBDA p : D(p[1], p[2]))
  IN DLt(DMul(3, delta), sep) => \A a \in B : DLe(S(a, a), DAdd(delta, "1e-9"))

Curve(e) ==
  /\ LET L == TLCEval(Lenses(e.g))
         B == DOMAIN e.zcr
         K == 1..e.npts
         u == TLCEval([k \in K |-> Shear(L, e.zcr[1][k])])
         turn == CPolar(1, DDiv(DMul(2, DPi), e.npts - 1))
     IN Verdict(Clause("Branches", Len(e.zcr) = 2 * e.g.n /\ Len(e.zca) = Len(e.zcr)
                                   /\ \A b \in B : Len(e.zcr[b]) = e.npts /\ Len(e.zca[b]) = e.npts)
                \cup Clause("OnCriticalCurve", \A b \in B : \A k \in K : DNear(CAbs2(Shear(L, e.zcr[b][k])), 1, "1e-6"))
                \cup Clause("CausticIsImage", \A b \in B : \A k \in K : CNear(LensMap(L, e.zcr[b][k]), e.zca[b][k], "1e-8"))
                \cup Clause("SamePhase", \A b \in B : \A k \in K : CNear(Shear(L, e.zcr[b][k]), u[k], "1e-6"))
                \cup Clause("Complete", \A k \in K : ColumnComplete(L, u[k], Col(e.zcr, k)))
                \cup Clause("FullCircle", \/ \A k \in 1..(e.npts - 1) : CNear(u[k + 1], CMul(u[k], turn), "1e-5")
                                          \/ \A k \in 1..(e.npts - 1) : CNear(u[k + 1], CMul(u[k], CConj(turn)), "1e-5"))
                \cup Clause("Contiguous", \A k \in 1..(e.npts - 1) : Contiguous(e.zcr, k)))
  /\ ca' = e.zca /\ UNCHANGED note

Curve1(e) ==
  /\ Verdict(Clause("UnitCircle", \A k \in DOMAIN e.zcr : DNear(CAbs(e.zcr[k]), 1, "1e-12"))
             \cup Clause("WholeCircle", \A k \in 1..(Len(e.zcr) - 1) :
                     CNear(e.zcr[k + 1], CMul(e.zcr[k], CPolar(1, DDiv(DMul(-2, DPi), e.npts - 1))), "1e-9")
                     \/ CNear(e.zcr[k + 1], CMul(e.zcr[k], CPolar(1, DDiv(DMul(2, DPi), e.npts - 1))), "1e-9"))
             \cup Clause("PointCaustic", \A k \in DOMAIN e.zca : CNear(e.zca[k], CZero, "1e-12"))
             \cup Clause("Length", Len(e.zcr) = e.npts /\ Len(e.zca) = e.npts))
  /\ UNCHANGED <<ca, note>>

(* Crossing the caustic at zca[b][k] along its normal.  Judged at proper   *)
(* folds only: the caustic moves along its tangent with speed Speed as the *)
(* phase of the shear advances (zero at a cusp), and no other part of the  *)
(* caustic is near.                                                        *)
Tangent(u) == CPolar(1, DMul("-0.5", DAtan2(u[2], u[1])))
DShear(L, z) == CScale(-2, FoldLeft(LAMBDA acc, x : CAdd(acc, CScale(x.m, CDiv(COne, CMul(CSq(CSub(z, x.z)), CSub(z, x.z))))), CZero, L))
ZSpeed(L, z, u) == CDiv(CMul(<<0, 1>>, u), DShear(L, z))
Speed(L, z, u) == DMul(2, CMul(CConj(Tangent(u)), ZSpeed(L, z, u))[1])
FoldAt(e) ==
  /\ LET L == TLCEval(Lenses(e.g))
         wc == ca[e.b][e.k]
         tan == TLCEval(Tangent(Shear(L, e.z)))
         nrm == CMul(<<0, 1>>, tan)
         inn == CAdd(wc, CScale(e.delta, nrm))  out == CSub(wc, CScale(e.delta, nrm))
         Alone == \A b \in DOMAIN ca : \A k \in DOMAIN ca[b] :
                    LET d == TLCEval(CSub(ca[b][k], wc))  r == CAbs(d)  s == CMul(d, CConj(tan)) IN
                    DLt(r, DMul(12, e.delta)) => DLe(DAbs(s[2]), DAdd(DMul("0.25", r), "1e-9"))
         sp == Speed(L, e.z, Shear(L, e.z))
         Fold == DLe(CAbs(ZSpeed(L, e.z, Shear(L, e.z))), DMul("1.5", DAbs(sp))) /\ DLe(DMul(60, e.delta), DAbs(sp))
         ok == Fold /\ Certified(e.g, e.w1, e.r1) /\ Certified(e.g, e.w2, e.r2)
               /\ Clear(L, e.w1, e.r1) /\ Clear(L, e.w2, e.r2) /\ Alone
         d == Cardinality(Which(L, e.w1, e.r1)) - Cardinality(Which(L, e.w2, e.r2))
     IN /\ Verdict(Clause("FoldSetup", \/ CNear(e.w1, inn, "1e-6") /\ CNear(e.w2, out, "1e-6")
                                       \/ CNear(e.w1, out, "1e-6") /\ CNear(e.w2, inn, "1e-6"))
                   \cup Clause("TwoImagesAcross", ok => d \in {-2, 2}))
        /\ note' = IF ok THEN [note EXCEPT !.folds = @ + 1] ELSE [note EXCEPT !.skipped = @ + 1]
  /\ UNCHANGED ca

Init == BaseInit /\ ca = <<>> /\ note = [folds |-> 0, skipped |-> 0]
Next == On("curve", Curve) \/ On("curve1", Curve1) \/ On("fold", FoldAt) \/ (FaultStep /\ UNCHANGED <<ca, note>>)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
