------------------------------- MODULE Kepler ------------------------------
(***************************************************************************)
(* The Sun seen from the Earth on a Keplerian orbit, projected on the sky  *)
(* at (RA, Dec): what an annual-parallax model is about.                   *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, SequencesExt, TLC
Rad(deg) == DDiv(DMul(deg, DPi), 180)
(* E - e sin E = M by Newton's method *)
Newton(M, ecc, x) == DSub(x, DDiv(DSub(DSub(x, DMul(ecc, DSin(x))), M), DSub(1, DMul(ecc, DCos(x)))))
EccAnomaly(M, ecc) == FoldLeft(LAMBDA x, k : Newton(M, ecc, x), DAdd(M, DMul(ecc, DSin(M))), [k \in 1..(IF DLt("0.3", ecc) THEN 25 ELSE 7) |-> k])
MeanMotion(o) == DDiv(DMul(2, DPi), o.period)
Anomaly(o, t) == EccAnomaly(DMul(MeanMotion(o), DSub(t, o.tperi)), o.ecc)
(* position and velocity in the orbital plane, x towards perihelion *)
Plane(o, t) ==
  LET E == TLCEval(DStr(Anomaly(o, t)))  b == DSqrt(DSub(1, DSq(o.ecc)))
      dE == DDiv(MeanMotion(o), DSub(1, DMul(o.ecc, DCos(E))))
  IN [x |-> DSub(DCos(E), o.ecc), y |-> DMul(b, DSin(E)),
      vx |-> DNeg(DMul(DSin(E), dE)), vy |-> DMul(DMul(b, DCos(E)), dE)]
(* unit vector of the equinox in the orbital plane *)
Equinox(o) == LET p == TLCEval(Plane(o, o.tvernal))  r == DSqrt(DAdd(DSq(p.x), DSq(p.y)))
              IN <<DDiv(p.x, r), DDiv(p.y, r)>>
(* orbital plane -> ecliptic (x towards the equinox) -> equatorial *)
ToEq(o, u, x, y) ==
  LET ex == DAdd(DMul(x, u[1]), DMul(y, u[2]))
      ey == DSub(DMul(y, u[1]), DMul(x, u[2]))
      i == Rad(o.tilt)
  IN <<ex, DMul(ey, DCos(i)), DMul(ey, DSin(i))>>
East(o) == LET a == Rad(o.ra) IN <<DNeg(DSin(a)), DCos(a), 0>>
North(o) == LET a == Rad(o.ra)  d == Rad(o.dec) IN <<DNeg(DMul(DSin(d), DCos(a))), DNeg(DMul(DSin(d), DSin(a))), DCos(d)>>
(* <<north, east>> components of position and velocity at t *)
SkyPos(o, u, t) == LET p == TLCEval(Plane(o, t)) v == ToEq(o, u, p.x, p.y) IN <<DDot(North(o), v), DDot(East(o), v)>>
SkyVel(o, u, t) == LET p == TLCEval(Plane(o, t)) v == ToEq(o, u, p.vx, p.vy) IN <<DDot(North(o), v), DDot(East(o), v)>>
(* displacement from uniform motion matched at tref *)
Shift(o, u, q0, v0, tref, t) ==
  LET q == SkyPos(o, u, t)  dt == DSub(t, tref)
  IN <<DSub(q[1], DAdd(q0[1], DMul(v0[1], dt))), DSub(q[2], DAdd(q0[2], DMul(v0[2], dt)))>>
DTau(piN, piE, d) == DAdd(DMul(piN, d[1]), DMul(piE, d[2]))
DBeta(piN, piE, d) == DSub(DMul(piN, d[2]), DMul(piE, d[1]))
=============================================================================
