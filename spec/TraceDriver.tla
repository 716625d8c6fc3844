---------------------------- MODULE TraceDriver ----------------------------
(***************************************************************************)
(* C05/C06: the light-curve drivers on the scenarios TLC enumerated from   *)
(* Driver.  `ref` holds, per position, the cheap and the full value as the *)
(* public low-level solvers give them; a run must deliver for every        *)
(* position exactly the value Driver!Expected names, in place.             *)
(***************************************************************************)
EXTENDS TraceBase, Lens, DriverCore
VARIABLES ref, note

(* A position certainly needs the full solver when its source touches the  *)
(* caustic: z is on the critical curve and maps inside the source.         *)
OnCaustic(e) == LET L == TLCEval(Lenses(e.g)) IN
  DNear(CAbs2(Shear(L, e.z)), 1, "1e-6") /\ DLe(CAbs(CSub(LensMap(L, e.z), e.w)), DMul("0.5", e.rho))
(* ... and certainly not when it is far from every lens compared with its size. *)
Calm(e) == LET L == TLCEval(Lenses(e.g)) IN \A k \in DOMAIN L : DLe(DAdd(2, DMul(5, e.rho)), CAbs(CSub(e.w, L[k].z)))

Point(e) ==
  /\ ref' = (e.key :> [multi |-> e.multi, full |-> e.full]) @@ ref
  /\ Verdict(Clause("PointSetup", IF e.need THEN OnCaustic(e) ELSE Calm(e))
             \cup Clause("FiniteReference", DFinite(e.multi) /\ DFinite(e.full)))
  /\ UNCHANGED note
Eq(x, y) == DClose(x, y, "1e-6", "1e-9")
Run(e) ==
  /\ LET n == Len(e.keys)
         V(i) == LET r == ref[e.keys[i]] IN IF Expected(e.need, e.budget, i) = "full" THEN r.full ELSE r.multi
     IN Verdict(Clause("SameLength", Len(e.out) = n)
                \cup Clause("ValueInPlace", Len(e.out) = n => \A i \in 1..n : Eq(e.out[i], V(i))))
  /\ note' = [note EXCEPT !.runs = @ + 1, !.full = @ + Cardinality({i \in DOMAIN e.need : Expected(e.need, e.budget, i) = "full"})]
  /\ UNCHANGED ref
Init == BaseInit /\ ref = <<>> /\ note = [runs |-> 0, full |-> 0]
Next == On("point", Point) \/ On("run", Run) \/ (FaultStep /\ UNCHANGED <<ref, note>>)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
