----------------------------- MODULE TraceRoots ----------------------------
(***************************************************************************)
(* C04: the polynomial solver.  A list of numbers is the complete root     *)
(* list (with multiplicity) of c_0 t^n + ... + c_n exactly when            *)
(* c_0 prod (t - r_i) is that polynomial; n + 1 sample points decide it.   *)
(* The comparison is relative to the size of the coefficients (backward    *)
(* error), so multiple and clustered roots are judged fairly.              *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES lane

Eval(p, t) == FoldLeft(LAMBDA acc, x : CAdd(CMul(acc, t), x), CZero, p)
Size(p, t) == FoldLeft(LAMBDA acc, x : DAdd(DMul(acc, CAbs(t)), CAbs(x)), 0, p)
Prod(lead, rs, t) == FoldLeft(LAMBDA acc, r : CMul(acc, CSub(t, r)), lead, rs)
(* sample points at the scale of the roots *)
Pts(n, R) == [k \in 1..(n + 1) |-> CPolar(DMul(R, DAdd("0.4", DDiv(k, n + 1))), DMul("2.39996322972865", k))]
Complete(p, rs, R, tol) ==
  /\ Len(rs) = Len(p) - 1
  /\ \A i \in DOMAIN rs : CFinite(rs[i])
  /\ \A t \in Range(Pts(Len(rs), R)) : DLe(CAbs(CSub(Eval(p, t), Prod(p[1], rs, t))), DMul(tol, Size(p, t)))
(* the last digits of a tight pair are not determined by the coefficients *)
Tight(e) == DMax("1e-7", DDiv(DMul("1e-12", e.R), e.sep))
EachIsRoot(p, rs, tol) == \A i \in DOMAIN rs : DLe(CAbs(Eval(p, rs[i])), DMul(tol, Size(p, rs[i])))
(* Roots that are sep apart are found to a thousandth of that distance (Newton   *)
(* step p/p'), unless rounding of the coefficients already hides them.           *)
Deriv(p, t) == LET n == Len(p) - 1 IN FoldLeft(LAMBDA acc, i : CAdd(CMul(acc, t), CScale(n + 1 - i, p[i])), CZero, [i \in 1..n |-> i])
Accurate(p, rs, sep) == \A i \in DOMAIN rs :
  DLe(CAbs(Eval(p, rs[i])), DMax(DMul(DMul("1e-3", sep), CAbs(Deriv(p, rs[i]))), DMul("1e-14", Size(p, rs[i]))))
RealPoly(p) == \A i \in DOMAIN p : DEq(p[i][2], 0)
(* roots of a real polynomial come in conjugate pairs *)
ConjClosed(rs, tol) == \A i \in DOMAIN rs : \E j \in DOMAIN rs : CNear(rs[j], CConj(rs[i]), tol)
(* both lists describe the same roots *)
SameSet(xs, ys, tol) == /\ \A i \in DOMAIN xs : \E j \in DOMAIN ys : CNear(xs[i], ys[j], tol)
                        /\ \A i \in DOMAIN ys : \E j \in DOMAIN xs : CNear(ys[i], xs[j], tol)

Solve(e) ==
  /\ Verdict(Clause("Complete", Complete(e.p, e.r, e.R, Tight(e)))
             \cup Clause("EachIsRoot", EachIsRoot(e.p, e.r, "1e-12"))
             \cup Clause("SeparatesRoots", Accurate(e.p, e.r, e.sep))
             \cup Clause("ConjugatePairs", (RealPoly(e.p) /\ e.simple) => ConjClosed(e.r, DMul("1e-6", e.R))))
  /\ lane' = [id |-> e.lane, r |-> e.r]
(* The same polynomial in another batch, alone, or from other starting points: the same roots *)
Again(e) ==
  /\ Verdict(Clause("Complete", Complete(e.p, e.r, e.R, Tight(e)))
             \cup Clause("Independent_" \o e.how, (e.simple /\ lane.id = e.lane) => SameSet(e.r, lane.r, DMul("1e-6", e.R))))
  /\ UNCHANGED lane
Shape(e) == Verdict(Clause("Shape", e.want = e.got)) /\ UNCHANGED lane

Init == BaseInit /\ lane = [id |-> "none", r |-> <<>>]
Next == On("roots", Solve) \/ On("again", Again) \/ On("shape", Shape) \/ (FaultStep /\ UNCHANGED lane)
=============================================================================
