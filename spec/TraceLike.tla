----------------------------- MODULE TraceLike -----------------------------
(***************************************************************************)
(* C12: the flux-marginalised likelihood.  Integrating the linear model    *)
(*   flux = M f + noise,  noise ~ N(0, C),  f ~ N(mu, Lambda)              *)
(* over f leaves flux ~ N(M mu, S) with S = C + M Lambda M^T, hence        *)
(*   nll = ((flux - M mu)^T S^-1 (flux - M mu) + log det S) / 2.           *)
(* The specification evaluates that by eliminating S itself, a formula     *)
(* that shares nothing with the code's (which never forms S).              *)
(***************************************************************************)
EXTENDS TraceBase, Linear
VARIABLES note

Marginal(M, C0, L) == MatAdd(C0, MatMul(MatMul(M, L), Transp(M)))
Nll(flux, M, C0, mu, L) ==
  LET t == QuadLog(Marginal(M, C0, L), VSub(flux, MatVec(M, mu)))
  IN DDiv(DAdd(t[1], t[2]), 2)
(* Rounding of the data term relative to its largest summand *)
Scale(flux, C0) == DSum([i \in 1..Len(flux) |-> DAdd(1, DAdd(DAbs(DLn(C0[i][i])), DDiv(DSq(flux[i]), C0[i][i])))])
Tol(e) == DMul(e.cond, DMul("1e-11", Scale(e.flux, e.C)))

NllEv(e) ==
  LET ref == TLCEval(Nll(e.flux, e.M, e.C, e.mu, e.L))
  IN /\ Verdict(Clause("Finite", DFinite(e.nll)) \cup Clause("MarginalLikelihood_" \o e.fn, DNear(e.nll, ref, Tol(e))))
     /\ note' = [note EXCEPT !.judged = @ + 1]
(* two evaluations that the model says are equal, or differ by a known constant *)
PairEv(e) ==
  /\ Verdict(Clause(e.why, DNear(DSub(e.x, e.y), e.diff, DAdd(e.tol, DMul("1e-11", DAbs(e.x))))))
  /\ UNCHANGED note
(* gradient of the likelihood with respect to the data: S^-1 (flux - M mu), checked as S g = r *)
GradEv(e) ==
  LET S == Marginal(e.M, e.C, e.L)  r == VSub(e.flux, MatVec(e.M, e.mu))  lhs == MatVec(S, e.grad)
      tol(i) == DMul(DMul(e.cond, "1e-11"), DAdd(DAbs(r[i]), DSum([j \in 1..Len(r) |-> DMul(DAbs(S[i][j]), DAdd(DAbs(e.grad[j]), DDiv(DAbs(e.flux[j]), e.C[j][j])))])))
  IN /\ Verdict(Clause("Gradient_" \o e.fn, Len(e.grad) = Len(r) /\ \A i \in 1..Len(r) : DNear(lhs[i], r[i], tol(i))))
     /\ UNCHANGED note
Init == BaseInit /\ note = [judged |-> 0]
Next == On("nll", NllEv) \/ On("pair", PairEv) \/ On("grad", GradEv) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
