------------------------------ MODULE DiskMag ------------------------------
(***************************************************************************)
(* Magnification of a disk by a single lens, from its definition: the      *)
(* point-source magnification A(r) = (r^2+2)/(r sqrt(r^2+4)) averaged over *)
(* the disk.  In polar coordinates about the lens the radial integral is   *)
(* elementary (F below), which leaves an integral over the angle.  Limb-   *)
(* darkened profiles (1 - r^2)^{n/2} are superpositions of uniform disks.  *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, SequencesExt, TLC
Mid(n, full) == TLCEval([k \in 1..n |-> LET t == DDiv(DMul(full, 2 * k - 1), 2 * n) IN <<DSin(t), DCos(t)>>])
ArcHalf == Mid(96, DPi)                \* angle about the lens, source covering the lens
ArcQuarter == Mid(48, DDiv(DPi, 2))    \* angle about the source centre otherwise
Arc == [fine |-> ArcHalf, out |-> ArcQuarter]
CoarseHalf == Mid(24, DPi)
CoarseQuarter == Mid(12, DDiv(DPi, 2))
Coarse == [fine |-> CoarseHalf, out |-> CoarseQuarter]
PhiNodes == Mid(24, DDiv(DPi, 2))
(* Gauss-Legendre nodes and weights on [0, 1] *)
GaussNodes == <<<<"0.0024063900014893447", "0.0061706148999935454">>, <<"0.012635722014345263",
   "0.014265694314466872">>, <<"0.0308627239986336", "0.022138719408709776">>, <<"0.05679223649779952",
   "0.02964929245771837">>, <<"0.08999900701304853", "0.036673240705540205">>, <<"0.12993790421072282",
   "0.043095080765976644">>, <<"0.17595317403151223", "0.04880932605205703">>, <<"0.22728926430558022",
   "0.0537221350579828">>, <<"0.28310324618697746", "0.05775283402686281">>, <<"0.3424786601519183",
   "0.06083523646390171">>, <<"0.40444056626319186", "0.06291872817341415">>, <<"0.4679715535686972",
   "0.06396909767337611">>, <<"0.5320284464313028", "0.06396909767337611">>, <<"0.5955594337368082",
   "0.06291872817341415">>, <<"0.6575213398480817", "0.06083523646390171">>, <<"0.7168967538130225",
   "0.05775283402686281">>, <<"0.7727107356944198", "0.0537221350579828">>, <<"0.8240468259684878",
   "0.04880932605205703">>, <<"0.8700620957892772", "0.043095080765976644">>, <<"0.9100009929869515",
   "0.036673240705540205">>, <<"0.9432077635022005", "0.02964929245771837">>, <<"0.9691372760013663",
   "0.022138719408709776">>, <<"0.9873642779856547", "0.014265694314466872">>, <<"0.9975936099985107",
   "0.0061706148999935454">>>>

F(r) == DMul(DDiv(r, 2), DSqrt(DAdd(DSq(r), 4)))
Mean(s) == DDiv(DSum(s), Len(s))
(* mean magnification over the disk of radius rho centred at distance u *)
Disk(u, rho, A) ==
  IF DLe(u, rho)
  THEN DDiv(DMul(2, Mean([k \in DOMAIN A.fine |-> LET sn == A.fine[k][1]  cs == A.fine[k][2]
         IN F(DAdd(DMul(u, cs), DSqrt(DSub(DSq(rho), DSq(DMul(u, sn))))))])), DSq(rho))
  ELSE DDiv(Mean([k \in DOMAIN A.out |->
         LET st == DMul(DDiv(rho, u), A.out[k][1])  ct == DSqrt(DSub(1, DSq(st)))  d == DMul(rho, A.out[k][2])
         IN DMul(DSub(F(DAdd(DMul(u, ct), d)), F(DSub(DMul(u, ct), d))), DDiv(DMul(DDiv(rho, u), A.out[k][2]), ct))]), DSq(rho))
(* profile sqrt(1 - r^2), and profile 1 - r^2 *)
Limb1(u, rho) == DMul(DMul("1.5", DDiv(DPi, 2)), Mean([k \in DOMAIN PhiNodes |-> LET t == PhiNodes[k][1] IN DMul(DMul(t, DSq(t)), Disk(u, DMul(rho, t), Coarse))]))
Limb2(u, rho) == DMul(4, DSum([k \in DOMAIN GaussNodes |-> LET t == GaussNodes[k][1] IN
                   DMul(GaussNodes[k][2], DMul(DMul(t, DSq(t)), Disk(u, DMul(rho, t), Coarse)))]))
(* linear law 1 - a (1 - sqrt(1 - r^2)): flux-weighted mixture *)
Linear(a, u, rho) ==
  DDiv(DAdd(DMul(DSub(1, a), Disk(u, rho, Arc)), DMul(DMul(DDiv(2, 3), a), Limb1(u, rho))), DSub(1, DDiv(a, 3)))
Mag(profile, a, u, rho) ==
  CASE profile = "disk" -> Disk(u, rho, Arc)
    [] profile = "limb1" -> Limb1(u, rho)
    [] profile = "limb2" -> Limb2(u, rho)
    [] profile = "linear" -> Linear(a, u, rho)
=============================================================================
