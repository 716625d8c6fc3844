"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=["src/microjax/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                               mechanism=[dict(name=a, where="src/microjax/" + b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None),
                  _technique=technique, _note=note))


TV = "TLC trace validation of the real code"
prop("C01", "Point-source image sets are complete and contain no ghosts",
     "For one, two or three point lenses and any source position away from a caustic, the image solver returns every image exactly once and nothing that is not an image: each returned position satisfies the lens equation, the parities add up to 1-N, and the number of images is legal for N lenses. Batches, grids, single positions and trajectories tracked from one position to the next all give the same image sets, and along a trajectory images appear and vanish only in pairs.",
     ["inputs", "configurations", "histories"], "all lens configurations with separations 0.3-3 and mass ratios 1e-3..1e3 (triples: lenses not coinciding), all source positions away from caustics, all source trajectories",
     "The tests check that masked roots have small residuals at one or two fixed positions, and never that no image is missing; completeness over a continuous family of inputs cannot be sampled by asserting known answers.",
     ["point_source.py", "coeffs.py", "poly_solver.py"], [("_images_point_source", "point_source.py"), ("_poly_coeffs_binary", "coeffs.py"), ("_poly_coeffs_triple_CM", "coeffs.py")],
     ["_images_point_source", "_images_point_source_sequential", "lens_eq", "lens_eq_det_jac"],
     "TLA+ trace validation (TLC): image sets judged against a specification of the lens equation with root-completeness certificates",
     "Every recorded call is judged by TLC against the elimination polynomial of the lens equation (34-digit arithmetic), so a missing, duplicated or spurious image is decided, not sampled against stored answers; positions and configurations are randomly drawn plus caustic-adjacent, on-axis, near-lens and far ones.")
prop("C02", "Point-source magnification is the sum over images and respects lens symmetry",
     "The point-source magnification equals the sum of 1/|det J| over all images, is never below one, and is at least three inside a binary caustic. It is unchanged by reflecting the system about the lens axis, by exchanging the first two lenses, by adding a massless third lens, and by how positions are batched.",
     ["inputs", "configurations"], "all one-, two- and three-lens configurations and source positions in the domain of C01",
     "Tests look at shapes, asymptotics and the sign of differences; the single-lens formula was wrong on the pinned tree without any test noticing.",
     ["point_source.py", "coeffs.py"], [("mag_point_source", "point_source.py"), ("lens_eq_det_jac", "point_source.py")], ["mag_point_source"],
     "TLA+ trace validation (TLC): magnification recomputed from certified images, and symmetry pairs",
     "TLC recomputes each magnification from the certified image set; symmetry pairs are two runs of the code on configurations the specification itself shows to be equivalent.")
prop("C03", "Critical curves and caustics are complete, correct and continuous",
     "The critical-curve sampler returns, at every phase of a full turn, all points where the lens Jacobian vanishes, arranged in continuous branches, together with their images under the lens map as the caustic. Crossing that caustic at a fold changes the number of images by exactly two.",
     ["inputs", "configurations"], "all lens configurations of C01 and sampling densities",
     "Tests check only array shapes and that |det J| is small for one configuration; a missing branch or swapped branch passes.",
     ["point_source.py", "coeffs.py", "utils.py"], [("critical_and_caustic_curves", "point_source.py"), ("_poly_coeffs_critical_*", "coeffs.py"), ("match_points", "utils.py")],
     ["critical_and_caustic_curves"], "TLA+ trace validation (TLC): completeness by polynomial identity per phase, fold crossings on certified image sets",
     "Completeness is decided per phase by a polynomial identity; branch continuity is judged only where branches are separated by more than three steps, fold crossings only at isolated folds.")
prop("C04", "The polynomial solver returns the complete root multiset of every lane",
     "For every polynomial the solver returns all its roots with multiplicity, each with backward error below 1e-12 (as a set, 1e-7), whatever the scale of the roots. The result of one polynomial does not depend on which others share its batch, on the batch shape, or on the starting points.",
     ["inputs", "schedules"], "all polynomials of degree 1-10 with distinct, clustered, real, conjugate or scaled roots; all mixtures of them in a batch; all starting circles",
     "Tests try a handful of well-conditioned polynomials alone; lanes of different difficulty in one batch share one loop and are never mixed.",
     ["poly_solver.py"], [("poly_roots", "poly_solver.py"), ("while_loop with done mask", "poly_solver.py")], ["poly_roots"],
     "TLA+ model (TLC) of the shared iteration loop; its behaviours replayed into the real solver; trace validation of every result",
     "TLC enumerates every batch of up to three lanes over six difficulty kinds and shows lane independence of the loop; every batch is replayed with real polynomials and each result judged by a polynomial identity.",
     state=[("roots, done", "current estimates and convergence flags of all lanes", "poly_solver.py while_loop carry")])
prop("C05", "The adaptive binary light curve refines the right points, in place",
     "Every position of a binary light curve gets the value computed for that position: the full finite-source value if it needs refinement and is among the first positions within the refinement budget, the multipole value otherwise. The result does not depend on the batch width or on padding.",
     ["inputs", "configurations", "schedules"], "all patterns of positions that need refinement, all budgets (including 0 and more than needed), all chunk sizes, uniform and limb-darkened sources",
     "One test compares one light curve with ample budget; the ordering, budget, padding and write-back logic has combinatorially many cases.",
     ["inverse_ray/lightcurve.py", "inverse_ray/cond_extended.py"], [("argsort(test), idx_full, chunked_vmap, where(test)", "inverse_ray/lightcurve.py")], ["mag_binary"],
     "TLA+ model (TLC) of the driver, exhaustive in small constants; all its behaviours replayed into mag_binary and validated",
     "The model shows place, budget and padding behaviour for every pattern up to 4 (thorough: 7) positions; each enumerated behaviour is run on the real driver, and TLC compares every value with what the low-level solvers give for that position.",
     state=[("test, idx_full, mags", "selection mask, order of refinement, merged result", "inverse_ray/lightcurve.py mag_binary")])
prop("C06", "The triple-lens light curve refines the leading points, in place",
     "Every position of a triple-lens light curve gets the value computed for that position: the full finite-source value for the positions within the refinement budget, in order, and the multipole value beyond it. The result does not depend on the batch width or on padding.",
     ["inputs", "configurations", "schedules"], "all trajectory lengths, budgets and chunk sizes, uniform and limb-darkened sources",
     "No test calls the triple-lens driver at all.",
     ["inverse_ray/lightcurve.py"], [("idx_full, chunked_vmap", "inverse_ray/lightcurve.py")], ["mag_triple"],
     "TLA+ model (TLC) of the driver, exhaustive in small constants; behaviours replayed into mag_triple and validated",
     "As C05, with every position needing refinement.")
exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

NA = []


def main():
    have = [p for p in P if p["id"] in registry.CHECKS]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in have + [p for p in P if p["id"] not in registry.CHECKS]:
            h.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    man = dict(
        version=1, setup_cmd="python3 /verif/tools/setup.py",
        checks=[dict(property=p["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % p["id"],
                     thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"], level="model_checking", level_note=p["_note"])
                for p in have],
        not_applicable=NA + [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in registry.CHECKS],
        notes="TLA+ specifications in spec/, judged by TLC on traces recorded from /repo/src by drivers/. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
        json.dump(man, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    main()
