----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share.  The trace is the sequence of      *)
(* events recorded from the real code (file named by the environment       *)
(* variable TRACE).  A trace specification consumes one event per step     *)
(* with the action named by the event; every action judges the event and   *)
(* adds <<event id, clause>> to `bad` for each clause of the property      *)
(* that the event breaks.  A trace is accepted iff it is consumed and      *)
(* `bad` stays empty.                                                      *)
(***************************************************************************)
EXTENDS Cx, TLC, Json, IOUtils, SequencesExt, FiniteSets, FiniteSetsExt
VARIABLES l, bad

T == ndJsonDeserialize(IOEnv.TRACE)

Ev == T[l]
IsEvent(op) == l <= Len(T) /\ Ev.op = op /\ l' = l + 1
(* Consume an event with action J; e is bound to the value of the event *)
On(op, J(_)) == IsEvent(op) /\ \E e \in {Ev} : J(e)
(* Verdict(S): S is the set of clauses this event breaks *)
Verdict(S) == bad' = bad \cup {<<Ev.id, c>> : c \in S}
Clause(name, holds) == IF holds THEN {} ELSE {name}

(* The program raised where the property promises a result, or gave none. *)
RaiseStep == IsEvent("raise") /\ Verdict({"Raised"})
HangStep  == IsEvent("hang") /\ Verdict({"NoResult"})
BaseInit == l = 1 /\ bad = {}
FaultStep == RaiseStep \/ HangStep

Show == (l > Len(T)) => PrintT(<<"VERDICT", ToJson(bad)>>)
Post == PrintT(<<"CONSUMED", ToJson(TLCGet("stats").diameter - 1)>>)
=============================================================================
