----------------------------- MODULE TraceDisk -----------------------------
(***************************************************************************)
(* Finite-source magnifications.  A `begin` event opens a configuration,   *)
(* `piece` events walk once around the image plane and accumulate the area *)
(* of the images (state variable cur), and `value` events are results of   *)
(* the code, judged against the accumulated area once the turn is closed.  *)
(***************************************************************************)
EXTENDS TraceBase, RayArea
VARIABLES cur, note
vars == <<l, bad, cur, note>>

Begin(e) ==
  /\ cur' = [cfg |-> e.cfg, g |-> e.g, w |-> e.w, rho |-> e.rho, limb |-> e.limb, at |-> "0.0", area |-> "0", ld |-> "0", ok |-> TRUE]
  /\ note' = [note EXCEPT !.configurations = @ + 1]
  /\ UNCHANGED bad

WalkPiece(e) ==
  /\ LET L == TLCEval(Lenses(cur.g))
         p == TLCEval(Piece(L, cur.w, DSq(cur.rho), e.a, e.b, e.rays, cur.limb))
         ok == cur.ok /\ e.cfg = cur.cfg /\ e.a = cur.at /\ p[1]
     IN cur' = [cur EXCEPT !.at = e.b, !.ok = ok, !.area = DStr(DAdd(@, p[2])), !.ld = DStr(DAdd(@, p[3]))]
  /\ note' = [note EXCEPT !.rays = @ + 12]
  /\ UNCHANGED bad

Closed == cur.ok /\ DNear(cur.at, DMul(2, DPi), "1e-12")
(* Accuracy at the default resolution.  A configuration is `resolved` when sampling the  *)
(* source limb reveals where the images are; the others only get a loose bound.          *)
Uniform == {"mag_uniform"}
Tol(e) == CASE e.fn \in Uniform -> (CASE DLe("0.01", cur.rho) -> "2.5e-3" [] DLe("0.003", cur.rho) -> "5e-3" [] OTHER -> "1e-2")
            [] e.fn = "mag_limb_dark" -> (CASE DLe("0.01", cur.rho) -> "1e-2" [] DLe("0.003", cur.rho) -> "1.5e-2" [] OTHER -> "5e-2")
            [] e.fn = "contour" -> "2.5e-2"      (* 150 or 200 limb points *)
            [] e.fn = "contour_ld" -> "4e-2"
            [] e.fn = "contour_fine" -> "4e-3"   (* 300 or more limb points *)
            [] e.fn = "contour_fine_ld" -> "6e-3"
            [] e.fn = "hybrid" -> (IF DLe("0.01", cur.rho) THEN "8e-3" ELSE "1.6e-2")   (* light curve: refined positions *)
            [] e.fn = "multipole" -> "2e-3"   (* ... and those the light curve left to the multipole *)
            [] OTHER -> "1e-2"
(* Exceeded by a few per cent of the results only *)
Typical(e) == CASE e.fn \in Uniform -> "6e-4" [] e.fn = "contour" -> "1.5e-3" [] e.fn = "contour_ld" -> "2e-3"
                [] e.fn = "contour_fine" -> "3e-4" [] e.fn = "contour_fine_ld" -> "6e-4" [] e.fn = "multipole" -> "2e-4" [] OTHER -> "3e-3"
Value(e) ==
  /\ LET ref == TLCEval(DStr(DiskMag(cur.area, cur.ld, cur.rho, e.u1)))
         judged == e.cfg = cur.cfg /\ Closed
         good == judged /\ e.resolved
         loose == note.loose + (IF good /\ ~DClose(e.mag, ref, Typical(e), 0) THEN 1 ELSE 0)
     IN /\ Verdict(Clause("Finite", DFinite(e.mag))
                   \cup Clause("AtLeastOne", e.resolved => DLe(DSub(1, Tol(e)), e.mag))
                   \cup Clause("Accurate_" \o e.fn, good => DClose(e.mag, ref, Tol(e), 0))
                   \cup Clause("RoughlyRight_" \o e.fn, judged /\ e.fn \in {"mag_uniform", "mag_limb_dark"} /\ DLe("0.01", cur.rho) => DClose(e.mag, ref, "0.15", 0))
                   \cup Clause("MostlyAccurate_" \o e.fn, good => loose <= 2 + (note.certified \div 20)))
        /\ note' = IF good THEN [note EXCEPT !.certified = @ + 1, !.loose = loose]
                   ELSE IF judged THEN [note EXCEPT !.unresolved = @ + 1]
                   ELSE [note EXCEPT !.unclear = @ + 1]
  /\ UNCHANGED cur

(* Two evaluations of the code that must agree *)
Same(e) ==
  /\ Verdict(Clause(e.why, Len(e.x) = Len(e.y) /\ \A k \in DOMAIN e.x : DClose(e.x[k], e.y[k], e.rel, "1e-12")))
  /\ UNCHANGED <<cur, note>>

(* The regions of one arrangement of images (Regions.tla) *)
RT == INSTANCE RegionsTrace
Regions(e) ==
  /\ Verdict(Clause("EveryImageCovered", RT!EveryImageCovered(e)) \cup Clause("NoPlaceTwice", RT!NoPlaceTwice(e))
             \cup Clause("OneRegionPerArc", RT!OneRegionPerArc(e)) \cup Clause("Tight", RT!Tight(e)))
  /\ note' = [note EXCEPT !.regions = @ + 1]
  /\ UNCHANGED cur

Init == /\ BaseInit
        /\ cur = [cfg |-> "none", at |-> "0.0", ok |-> FALSE]
        /\ note = [certified |-> 0, unclear |-> 0, unresolved |-> 0, loose |-> 0, configurations |-> 0, rays |-> 0, regions |-> 0]
Next == On("begin", Begin) \/ On("piece", WalkPiece) \/ On("value", Value) \/ On("same", Same) \/ On("regions", Regions) \/ (FaultStep /\ UNCHANGED <<cur, note>>)
Report == (l > Len(T)) => PrintT(<<"NOTE", ToJson(note)>>)
=============================================================================
