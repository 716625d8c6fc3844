------------------------------ MODULE TraceGrad -----------------------------
(***************************************************************************)
(* Automatic derivatives against the derivatives of what is computed.      *)
(*  point    derivative of a point-source magnification: the specification *)
(*           differentiates the lens equation at every image (LensDot)     *)
(*  deriv    derivative of a finite-source magnification: two walks round  *)
(*           the image plane (side "minus", then "plus") give the areas of *)
(*           the images for the displaced configurations                   *)
(*  smooth   derivative of a function that the code evaluates accurately   *)
(*           enough to be differentiated by a stencil of its own values    *)
(***************************************************************************)
EXTENDS TraceBase, RayArea
LD == INSTANCE LensDot
VARIABLES cur, minus, note
vars == <<l, bad, cur, minus, note>>

None == [cfg |-> "none", at |-> "0.0", ok |-> FALSE]
Closed(a) == a.ok /\ DNear(a.at, DMul(2, DPi), "1e-12")

Begin(e) ==
  /\ cur' = [cfg |-> e.cfg, g |-> e.g, w |-> e.w, rho |-> e.rho, limb |-> e.limb, at |-> "0.0", area |-> "0", ld |-> "0", ok |-> TRUE]
  /\ minus' = IF e.side = "plus" THEN cur ELSE None
  /\ UNCHANGED <<bad, note>>
WalkPiece(e) ==
  /\ LET L == TLCEval(LD!Lenses(cur.g))
         p == TLCEval(Piece(L, cur.w, DSq(cur.rho), e.a, e.b, e.rays, cur.limb))
         ok == cur.ok /\ e.cfg = cur.cfg /\ e.a = cur.at /\ p[1]
     IN cur' = [cur EXCEPT !.at = e.b, !.ok = ok, !.area = DStr(DAdd(@, p[2])), !.ld = DStr(DAdd(@, p[3]))]
  /\ note' = [note EXCEPT !.rays = @ + 12]
  /\ UNCHANGED <<bad, minus>>

(* The displacement between the two walks is the one the code differentiated along *)
Fields(g) == IF g.n = 2 THEN {"s", "q"} ELSE IF g.n = 3 THEN {"s", "q", "q3", "r3", "psi"} ELSE {}
Moved(e) ==
  /\ Closed(cur) /\ Closed(minus) /\ cur.cfg = e.cfg \o "+" /\ minus.cfg = e.cfg \o "-"
  /\ cur.g.n = minus.g.n
  /\ \A f \in Fields(cur.g) : DNear(DSub(cur.g[f], minus.g[f]), DMul(DMul(2, e.h), e.d[f]), "1e-13")
  /\ \A k \in 1..2 : DNear(DSub(cur.w[k], minus.w[k]), DMul(DMul(2, e.h), e.d.w[k]), "1e-13")
  /\ DNear(DSub(cur.rho, minus.rho), DMul(DMul(2, e.h), e.d.rho), "1e-13")

(* Errors are measured in units of the magnification: the displacements are of the size  *)
(* of the source radius.  The inverse-ray solver smooths the edge of the source to       *)
(* differentiate; near a caustic ("..._edge": within 1.5 radii) the smoothed edge is     *)
(* coarse, more so with limb darkening.  Contours are differentiated as they are; an    *)
(* image next to a critical curve moves arbitrarily fast, so a caustic crossing may have *)
(* any derivative at its crossing points and only the typical error is bounded there.    *)
Tol == [uniform      |-> [abs |-> "0.05",  rel |-> "0.05", usual |-> "0.002",  bias |-> "4e-3"],
        uniform_edge |-> [abs |-> "0.2",   rel |-> "0.2",  usual |-> "0.02",   bias |-> "4e-3"],
        limb         |-> [abs |-> "0.2",   rel |-> "0.2",  usual |-> "0.02",   bias |-> "3e-2"],
        limb_edge    |-> [abs |-> "0.25",  rel |-> "0.25", usual |-> "0.05",   bias |-> "5e-2"],
        contour      |-> [abs |-> "0.005", rel |-> "0.01", usual |-> "0.0003", bias |-> "6e-3"],
        contour_edge |-> [abs |-> "1e9",   rel |-> "0", usual |-> "0.1",    bias |-> "6e-3"],
        contour_ld   |-> [abs |-> "0.03",  rel |-> "0.04", usual |-> "0.003",  bias |-> "6e-3"],
        contour_ld_edge |-> [abs |-> "1e9", rel |-> "0", usual |-> "0.1",  bias |-> "6e-3"],
        hybrid       |-> [abs |-> "0.05",  rel |-> "0.05", usual |-> "0.004",  bias |-> "6e-3"],
        hybrid_edge  |-> [abs |-> "0.2",   rel |-> "0.2",  usual |-> "0.02",   bias |-> "6e-3"]]
Deriv(e) ==
  /\ IF ~(e.ok /\ Moved(e)) THEN /\ Verdict(Clause("Finite", DFinite(e.jvp) /\ DFinite(e.vjp)))
                                 /\ note' = [note EXCEPT !.unclear = @ + 1]
     ELSE \E r \in { [p |-> DStr(DiskMag(cur.area, cur.ld, cur.rho, DAdd(e.u1, DMul(e.h, e.d.u1)))),
                      m |-> DStr(DiskMag(minus.area, minus.ld, minus.rho, DSub(e.u1, DMul(e.h, e.d.u1))))] } :
          LET D == DStr(DDiv(DSub(r.p, r.m), DMul(2, e.h)))
              M == DStr(DMul("0.5", DAdd(r.p, r.m)))
              err == DAbs(DSub(e.jvp, D))
              t == Tol[e.fn]
              seen == note.seen[e.fn] + 1
              rough == note.rough[e.fn] + (IF DLe(err, DMul(t.usual, DAdd(M, DAbs(D)))) THEN 0 ELSE 1)
          IN /\ Verdict(Clause("Finite", DFinite(e.jvp) /\ DFinite(e.vjp))
                        \cup Clause("Derivative_" \o e.fn, DLe(err, DAdd(DMul(t.abs, M), DMul(t.rel, DAbs(D)))))
                        \cup Clause("MostlyAccurate_" \o e.fn, rough <= 3 + (seen \div 4))
                        \cup Clause("SameValue_" \o e.fn, DClose(e.mag, M, t.bias, 0))
                        \cup Clause("ForwardIsReverse", DNear(e.jvp, e.vjp, DMul("1e-6", DAdd(M, DAbs(D))))))
             /\ note' = [note EXCEPT !.judged = @ + 1, !.rough[e.fn] = rough, !.seen[e.fn] = seen]
  /\ UNCHANGED <<cur, minus>>

(* Point source: the exact derivative *)
Point(e) ==
  /\ LET L == TLCEval(LD!Lenses(e.g))  S == LD!Which(L, e.w, e.roots)
         cert == LD!Certified(e.g, e.w, e.roots) /\ LD!Clear(L, e.w, e.roots)
         idx == SetToSeq(S)
     IN IF ~cert THEN /\ Verdict({}) /\ note' = [note EXCEPT !.unclear = @ + 1]
        ELSE LET Ld == TLCEval(LD!LensesDot(e.g, e.d))
                 D == TLCEval(LD!PointMagDot(L, Ld, e.d.w, idx, e.roots))
                 B == TLCEval(LD!PointMagDotSize(L, Ld, e.d.w, idx, e.roots))
                 M == TLCEval(DStr(LD!PointMag(L, S, e.roots)))
                 tol == DAdd(DMul("1e-7", DAdd(B, M)), DMul("1e-9", DMul(B, DSq(M))))
             IN /\ Verdict(Clause("Finite", DFinite(e.jvp) /\ DFinite(e.vjp))
                           \cup Clause("Derivative_point", DNear(e.jvp, D, tol))
                           \cup Clause("ForwardIsReverse", DNear(e.vjp, D, tol)))
                /\ note' = [note EXCEPT !.judged = @ + 1]
  /\ UNCHANGED <<cur, minus>>

(* values at -3h -2h -h h 2h 3h along the displacement *)
D6(v, h) == DDiv(DAdd(DSub(DMul(45, DSub(v[4], v[3])), DMul(9, DSub(v[5], v[2]))), DSub(v[6], v[1])), DMul(60, h))
D4(v, h) == DDiv(DSub(DMul(8, DSub(v[4], v[3])), DSub(v[5], v[2])), DMul(12, h))
Smooth(e) ==
  /\ LET a == TLCEval(DStr(D6(e.v, e.h)))  b == TLCEval(DStr(D4(e.v, e.h)))
         size == DStr(DAdd(DAbs(e.v[3]), DAbs(e.v[4])))
         unsure == DAdd(DAbs(DSub(a, b)), DMul("1e-6", size))
         fin == \A k \in 1..6 : DFinite(e.v[k])
         \* a stencil that straddles a switch of method or a jump does not measure a derivative
         clear == fin /\ DLe(DAbs(DSub(a, b)), DMul("1e-3", DAdd(size, DAbs(a))))
     IN /\ Verdict(Clause("Finite", DFinite(e.jvp) /\ DFinite(e.vjp))
                   \cup Clause("Derivative_" \o e.fn, clear => DNear(e.jvp, a, unsure))
                   \cup Clause("ForwardIsReverse", clear => DNear(e.jvp, e.vjp, DAdd(DMul("1e-9", DAdd(size, DAbs(a))), DMul("1e-6", DAbs(a))))))
        /\ note' = IF clear THEN [note EXCEPT !.judged = @ + 1] ELSE [note EXCEPT !.unclear = @ + 1]
  /\ UNCHANGED <<cur, minus>>

Init == /\ BaseInit /\ cur = None /\ minus = None
        /\ note = [judged |-> 0, unclear |-> 0, rays |-> 0, rough |-> [f \in DOMAIN Tol |-> 0], seen |-> [f \in DOMAIN Tol |-> 0]]
Next == On("begin", Begin) \/ On("piece", WalkPiece) \/ On("deriv", Deriv) \/ On("point", Point) \/ On("smooth", Smooth)
        \/ (FaultStep /\ UNCHANGED <<cur, minus, note>>)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
