---------------------------- MODULE TraceParallax --------------------------
(* C14: annual parallax. *)
EXTENDS TraceBase, Kepler
VARIABLES note

Near2(a, b, eps) == DNear(a[1], b[1], eps) /\ DNear(a[2], b[2], eps)
Near3(a, b, eps) == \A i \in 1..3 : DNear(a[i], b[i], eps)

(* third derivatives at perihelion, in units of the mean motion, over 6 *)
Hasty(o) == LET k == DDiv(1, DSub(1, o.ecc)) IN DMul("0.4", DMul(k, DSq(DSq(k))))
(* getpsi *)
PsiEv(e) ==
  /\ Verdict(Clause("KeplerEquation", DNear(DSub(e.psi, DMul(e.ecc, DSin(e.psi))), e.phi, DMul("1e-11", DAdd(1, DAbs(e.phi))))))
  /\ UNCHANGED note
(* peri_vernal: the perihelion nearest to tref among those of 2000-2020, with the equinox that follows it *)
Cycle(t, t0, per) == DSub(DMod(DAdd(DSub(t, t0), DDiv(per, 2)), per), DDiv(per, 2))
EpochEv(e) ==
  LET inside == DLe("1546", e.tref) /\ DLe(e.tref, "8900")
  IN /\ Verdict(Clause("Perihelion", DLe(DAbs(Cycle(e.tperi, "1546.70833", "365.2596")), "4.5"))
                \cup Clause("Equinox", DLe(DAbs(Cycle(e.tvernal, "1623.81597", "365.2422")), "0.05"))
                \cup Clause("SameYear", DLe(60, DSub(e.tvernal, e.tperi)) /\ DLe(DSub(e.tvernal, e.tperi), 95))
                \cup Clause("Nearest", (inside => DLe(DAbs(DSub(e.tperi, e.tref)), "188"))
                                       /\ (DLt("8900", e.tref) => DLt("8850", e.tperi)) /\ (DLt(e.tref, "1546") => DLt(e.tperi, "1550")))
                \cup Clause("SameAsFullJD", e.tperi = e.tperi2 /\ e.tvernal = e.tvernal2))
     /\ UNCHANGED note
(* project_earth_position, and the basis it projects on *)
PosEv(e) ==
  LET u == TLCEval(Equinox(e.o))
  IN /\ Verdict(Clause("Position", \A i \in DOMAIN e.t : Near2(e.q[i], SkyPos(e.o, u, e.t[i]), "1e-9"))
                \cup Clause("BasisNorth", Near3(e.north, North(e.o), "1e-12"))
                \cup Clause("BasisEast", Near3(e.east, East(e.o), "1e-12")))
     /\ note' = [note EXCEPT !.positions = @ + Len(e.t)]
(* set_parallax *)
SetEv(e) ==
  LET o == e.o  u == TLCEval(Equinox(o))
      \* truncation of the central difference: (n dt)^2 / 6 of the speed, times 1 + O(ecc)
      vtol == DAdd("1e-11", DMul(Hasty(o), DMul(MeanMotion(o), DSq(DMul(MeanMotion(o), e.dt)))))
  IN /\ Verdict(Clause("ReferencePosition", Near2(e.q0, SkyPos(o, u, e.tref), "1e-9"))
                \cup Clause("ReferenceVelocity", Near2(e.v0, SkyVel(o, u, e.tref), vtol))
                \cup Clause("EpochsUsed", DEq(e.tperi, o.tperi)))
     /\ UNCHANGED note
(* compute_parallax *)
OffEv(e) ==
  LET o == e.o  u == TLCEval(Equinox(o))
      q0 == SkyPos(o, u, e.tref)  v0 == SkyVel(o, u, e.tref)
      pi == DAdd(DAbs(e.piN), DAbs(e.piE))
      tol(t) == DMul(pi, DAdd("1e-9", DMul(DAbs(DSub(t, e.tref)), DMul(MeanMotion(o), DSq(DMul(MeanMotion(o), e.dt))))))
      ok(i, F(_, _, _), got) == DNear(got, F(e.piN, e.piE, Shift(o, u, q0, v0, e.tref, e.t[i])), tol(e.t[i]))
  IN /\ Verdict(Clause("Length", Len(e.dtn) = Len(e.t) /\ Len(e.dum) = Len(e.t))
                \cup Clause("TauOffset", \A i \in DOMAIN e.t : ok(i, DTau, e.dtn[i]))
                \cup Clause("BetaOffset", \A i \in DOMAIN e.t : ok(i, DBeta, e.dum[i])))
     /\ note' = [note EXCEPT !.offsets = @ + Len(e.t)]
(* the real Sun (ERFA ephemeris, vector from the Earth to the Sun) at the same times *)
SkyEv(e) ==
  /\ Verdict(Clause("TracksTheSun", \A i \in DOMAIN e.t : Near2(e.q[i], <<DDot(North(e.o), e.sun[i]), DDot(East(e.o), e.sun[i])>>, "0.012")))
  /\ UNCHANGED note
(* at tref there is no shift and, to first order, none around it *)
ZeroEv(e) ==
  /\ Verdict(Clause("NoShiftAtReference", DLe(DAbs(e.dtn), "1e-13") /\ DLe(DAbs(e.dum), "1e-13"))) /\ UNCHANGED note
PairEv(e) == /\ Verdict(Clause(e.why, DNear(e.x, e.y, "1e-10"))) /\ UNCHANGED note

Init == BaseInit /\ note = [positions |-> 0, offsets |-> 0]
Next == On("psi", PsiEv) \/ On("epoch", EpochEv) \/ On("pos", PosEv) \/ On("set", SetEv) \/ On("off", OffEv)
        \/ On("sky", SkyEv) \/ On("zero", ZeroEv) \/ On("pair", PairEv) \/ (FaultStep /\ UNCHANGED note)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
