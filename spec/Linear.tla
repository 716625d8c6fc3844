------------------------------- MODULE Linear ------------------------------
(* Small dense linear algebra over Dec: matrices are sequences of rows.    *)
EXTENDS Dec, Integers, Sequences, SequencesExt, TLC
Rows(n, F(_)) == [i \in 1..n |-> F(i)]
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> DDot(A[i], x)])
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
MatMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> DDot(A[i], Col(B, j))]])
Transp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> DAdd(A[i][j], B[i][j])]])
VSub(x, y) == TLCEval([i \in 1..Len(x) |-> DSub(x[i], y[i])])
Diag(d) == TLCEval([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]])
(* One step of elimination without pivoting (positive definite matrices):   *)
(* the Schur complement of the first pivot, for the matrix and a vector.    *)
Schur(A) == TLCEval([i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |->
              DSub(A[i + 1][j + 1], DDiv(DMul(A[i + 1][1], A[1][j + 1]), A[1][1]))]])
Reduce(A, r) == TLCEval([i \in 1..(Len(A) - 1) |-> DSub(r[i + 1], DDiv(DMul(A[i + 1][1], r[1]), A[1][1]))])
(* r^T A^-1 r and log det A *)
RECURSIVE QuadLog(_, _)
QuadLog(A, r) ==
  LET q == DDiv(DMul(r[1], r[1]), A[1][1])  g == DLn(A[1][1])
  IN IF Len(A) = 1 THEN <<q, g>>
     ELSE LET t == QuadLog(Schur(A), Reduce(A, r)) IN <<DAdd(q, t[1]), DAdd(g, t[2])>>
=============================================================================
