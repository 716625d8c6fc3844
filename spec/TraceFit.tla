------------------------------ MODULE TraceFit -----------------------------
(***************************************************************************)
(* C13: the weighted straight-line fit.  With w_i = 1/err_i^2 (1 where     *)
(* err_i = 0) the returned (a, b) satisfies the normal equations           *)
(*   sum w (y - a - b x) = 0,   sum w x (y - a - b x) = 0,                 *)
(* chi2 is the weighted sum of squared residuals, and be^2, ae^2 are the   *)
(* diagonal of the inverse normal matrix.  All of it about the weighted    *)
(* mean of x, where the equations decouple:                                *)
(*   xm = sum wx / sum w, Sxx = sum w (x-xm)^2,                            *)
(*   b = sum w (x-xm) y / Sxx, be^2 = 1/Sxx, ae^2 = 1/sum w + xm^2/Sxx.    *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES note
Wt(e) == TLCEval([i \in 1..Len(e.x) |-> IF DLt(0, e.err[i]) THEN DDiv(1, DSq(e.err[i])) ELSE 1])
Ref(e) ==
  LET w == Wt(e)  sw == DSum(w)  xm == DDiv(DDot(w, e.x), sw)  ym == DDiv(DDot(w, e.y), sw)
      dx == TLCEval([i \in 1..Len(e.x) |-> DSub(e.x[i], xm)])
      wdx == TLCEval([i \in 1..Len(e.x) |-> DMul(w[i], dx[i])])
      sxx == DDot(wdx, dx)
      b == DDiv(DDot(wdx, e.y), sxx)  a == DSub(ym, DMul(b, xm))
      res == TLCEval([i \in 1..Len(e.x) |-> DSub(DSub(e.y[i], a), DMul(b, e.x[i]))])
      chi2 == DSum([i \in 1..Len(e.x) |-> DMul(w[i], DSq(res[i]))])
      yy == DSum([i \in 1..Len(e.x) |-> DMul(w[i], DSq(e.y[i]))])
      \* loss of digits in the normal matrix: sum w x^2 / Sxx
      kappa == DDiv(DDot([i \in 1..Len(e.x) |-> DMul(w[i], e.x[i])], e.x), sxx)
  IN [b |-> b, a |-> a, be |-> DSqrt(DDiv(1, sxx)), ae |-> DSqrt(DAdd(DDiv(1, sw), DDiv(DSq(xm), sxx))),
      chi2 |-> chi2, yy |-> yy, sxx |-> sxx, sw |-> sw, kappa |-> DAdd(1, kappa)]
FitEv(e) ==
  LET r == Ref(e)  eps == DMul("1e-12", DMul(r.kappa, r.kappa))
      mag == DSqrt(DDiv(r.yy, r.sw))   \* typical |y|
  IN /\ Verdict(Clause("Finite", DFinite(e.a) /\ DFinite(e.b) /\ DFinite(e.ae) /\ DFinite(e.be) /\ DFinite(e.chi2))
                \cup Clause("Slope", DNear(e.b, r.b, DMul(eps, DAdd(DAbs(r.b), DMul(r.be, DSqrt(r.yy))))))
                \cup Clause("Intercept", DNear(e.a, r.a, DMul(eps, DAdd(DAbs(r.a), DAdd(mag, DMul(r.ae, DSqrt(r.yy)))))))
                \cup Clause("SlopeError", DClose(e.be, r.be, eps, 0))
                \cup Clause("InterceptError", DClose(e.ae, r.ae, eps, 0))
                \cup Clause("Chi2", DNear(e.chi2, r.chi2, DMul(DMul(eps, r.kappa), r.yy))))
     /\ note' = [note EXCEPT !.judged = @ + 1]
PairEv(e) == /\ Verdict(Clause(e.why, DClose(e.u, e.v, e.rel, e.abs))) /\ UNCHANGED note
Init == BaseInit /\ note = [judged |-> 0]
Next == On("fit", FitEv) \/ On("pair", PairEv) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
