----------------------------- MODULE TraceUtil -----------------------------
(* C19: matching and the zero-aware reductions, judged against their definitions. *)
EXTENDS TraceBase
VARIABLES note

Dist(x, y) == CAbs2(CSub(x, y))
FreeAt(e, i) == (1..Len(e.b)) \ {e.idx[k] + 1 : k \in 1..(i - 1)}
MatchEv(e) ==
  LET ok == Len(e.idx) = Len(e.a) /\ \A i \in DOMAIN e.idx : e.idx[i] + 1 \in 1..Len(e.b)
  IN /\ Verdict(Clause("Complete", ok)
                \cup (IF ~ok THEN {} ELSE
                       Clause("OneToOne", Cardinality({e.idx[i] : i \in DOMAIN e.idx}) = Len(e.a))
                       \cup Clause("Greedy", \A i \in DOMAIN e.a : LET d == Dist(e.a[i], e.b[e.idx[i] + 1])
                                    IN e.idx[i] + 1 \in FreeAt(e, i) /\ \A j \in FreeAt(e, i) : DLe(d, DAdd("1e-13", Dist(e.a[i], e.b[j]))))))
     /\ note' = [note EXCEPT !.matched = @ + 1]
IsZ(x) == DEq(x, 0)
VecEv(e) ==
  LET v == e.v  N == DOMAIN v  nz == {i \in N : ~IsZ(v[i])}  z == N \ nz
      Least(S) == CHOOSE i \in S : \A j \in S : i <= j
      Greatest(S) == CHOOSE i \in S : \A j \in S : j <= i
      minI == CHOOSE i \in nz : \A j \in nz : DLe(v[i], v[j])
      maxI == CHOOSE i \in nz : \A j \in nz : DLe(v[j], v[i])
  IN /\ Verdict(Clause("FirstNonzero", e.fnz = IF nz = {} THEN 0 ELSE Least(nz) - 1)
                \cup Clause("LastNonzero", e.lnz = IF nz = {} THEN 0 ELSE Greatest(nz) - 1)
                \cup Clause("FirstZero", e.fz = IF z = {} THEN 0 ELSE Least(z) - 1)
                \cup Clause("MinNonzero", DEq(e.min, IF nz = {} THEN 0 ELSE v[minI]))
                \cup Clause("MaxNonzero", DEq(e.max, IF nz = {} THEN 0 ELSE v[maxI]))
                \cup Clause("MeanNonzero", DNear(e.mean, IF nz = {} THEN 0 ELSE DDiv(DSum(v), Cardinality(nz)), "1e-14"))
                \cup Clause("SparseSort", /\ {e.order[i] + 1 : i \in DOMAIN e.order} = N /\ Len(e.order) = Len(v)
                                          /\ \A i \in DOMAIN e.order : i <= Cardinality(nz) <=> e.order[i] + 1 \in nz
                                          /\ \A i \in 2..Cardinality(nz) : DLe(v[e.order[i - 1] + 1], v[e.order[i] + 1])))
     /\ note' = [note EXCEPT !.vectors = @ + 1]
(* samples y vanish beyond the tail *)
TrapEv(e) ==
  LET n == e.tail + 1
      area == DSum([i \in 1..(n - 1) |-> DMul("0.5", DMul(DAdd(e.y[i], e.y[i + 1]), DSub(e.x[i + 1], e.x[i])))])
  IN /\ Verdict(Clause("TailIntegral", DNear(e.area, area, "1e-12"))) /\ UNCHANGED note
Init == BaseInit /\ note = [matched |-> 0, vectors |-> 0]
Next == On("match", MatchEv) \/ On("vec", VecEv) \/ On("trap", TrapEv) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
