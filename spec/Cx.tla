-------------------------------- MODULE Cx ---------------------------------
(* Complex numbers over Dec: a pair <<re, im>>. *)
EXTENDS Dec, Integers, Sequences, SequencesExt
(* F(v), with v evaluated once (TLC evaluates operator arguments lazily, again at every use) *)
With(v, F(_)) == FoldLeft(LAMBDA acc, x : F(x), 0, <<v>>)
C(re, im) == <<re, im>>
CZero == <<0, 0>>
COne == <<1, 0>>
CAdd(a, b) == <<DAdd(a[1], b[1]), DAdd(a[2], b[2])>>
CSub(a, b) == <<DSub(a[1], b[1]), DSub(a[2], b[2])>>
CMul(a, b) == <<DSub(DMul(a[1], b[1]), DMul(a[2], b[2])), DAdd(DMul(a[1], b[2]), DMul(a[2], b[1]))>>
CScale(k, a) == <<DMul(k, a[1]), DMul(k, a[2])>>
CConj(a) == <<a[1], DNeg(a[2])>>
CNeg(a) == <<DNeg(a[1]), DNeg(a[2])>>
CAbs2(a) == DAdd(DMul(a[1], a[1]), DMul(a[2], a[2]))
CAbs(a) == DSqrt(CAbs2(a))
CDiv(a, b) == LET n == CAbs2(b) p == CMul(a, CConj(b)) IN <<DDiv(p[1], n), DDiv(p[2], n)>>
CSq(a) == CMul(a, a)
CNear(a, b, eps) == DLe(CAbs(CSub(a, b)), eps)
CFinite(a) == DFinite(a[1]) /\ DFinite(a[2])
CPolar(r, phi) == <<DMul(r, DCos(phi)), DMul(r, DSin(phi))>>
=============================================================================
