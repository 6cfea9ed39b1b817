"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CHECKS = {
 "C01": (T + "trace validation of recorded shapes against the Katz state machine", "Every recorded (halo, radius) result is replayed step by step through spec/Katz.tla on the same particles; exact up to 1e-6 on the generated halos, settings and centres. Trusts TLC, module R and the harness encoding; inputs are sampled, not exhaustive."),
 "C02": (T + "trace validation of recorded global shapes against the Katz state machine", "As C01, for the global iteration including halos larger than the safety margin."),
 "C04": (T + "KatzMC explored exhaustively over small symmetric clouds; random halos and their rotated, reflected, shifted, scaled and relabelled copies replayed through the Katz state machine", "Shifts, rotations, mass and length rescalings and particle permutations of the same halo, each replayed and related in spec/KatzTrace.tla; tolerances bound rounding only."),
 "C05": (T + "trace validation of recorded spherical densities against Profiles", "Each density at each radius recomputed in the specification; sampled inputs."),
 "C06": (T + "trace validation of recorded ellipsoidal densities against Profiles", "Shells interpolated between the axes of the halo's shape catalogue in the specification; sampled inputs."),
 "C07": (T + "trace validation of recorded kernel densities against Profiles", "Each kernel sum recomputed in the specification; sampled inputs."),
 "C08": (T + "trace validation of recorded centres and masses against the shrinking-sphere state machine", "Every shrink step is a TLC transition; halos cut by faces, edges and corners included; runs that hinge on a rounding-level comparison are counted as ambiguous."),
 "C10": (T + "histories generated by TLC from the Session machine (unit systems changing between operations) replayed on the real classes; SessionTrace judges every answer", "Random histories of bounded length over a four-data-set world; each answer equals the one of a fresh object, converted by the specification."),
 "C13": (T + "histories generated by TLC from the Session machine replayed on the real classes; SessionTrace judges every answer and argument", "Session model-checked exhaustively for short histories; replayed histories are random and of bounded length."),
 "C14": (T + "dump and reload histories generated by TLC from the Session machine replayed on the real classes; SessionTrace judges every file and answer", "As C13; file listings and contents are compared after every dump."),
 "C15": (T + "behaviours of the LruCache machine, exhaustive up to a length and random beyond, replayed on the real cache", "LruCache invariants model-checked; every short behaviour replayed with hits, misses, size, evictions and values compared at every step; memory availability is a stand-in."),
 "C16": (T + "histories generated by TLC from the Session machine (cache limits changing between operations) replayed on the real classes", "As C13, with limit updates between all queries."),
 "C03": (T + "trace validation of recorded velocity shapes against the Katz state machine", "As C01, on Gadget input with bulk velocities; exact up to 1e-5."),
 "C09": (T + "recorded halos, cut and uncut, related pairwise by module Relate; Boundary model of the unwrapping", "Boundary checks the unwrapping exhaustively on a small integer torus and its cases are replayed; real halos are compared cut against uncut for every public query."),
 "C11": (T + "catalogues generated by TLC from Selection and by random, each answer judged by SelectionTrace", "Selection's order and index invariants are model-checked; retained halos, index lists, radii and every query on requested halo numbers are compared with those of the specification."),
 "C12": (T + "Workers model of the parallel loops, generated catalogues replayed with other halos, orders, stores and thread counts, related by module Relate", "Workers is model-checked over all interleavings; the real loops run at several thread counts."),
 "C17": (T + "trace validation of recorded fits against Fits (optimality against the objective over a grid and local steps, fixed parameters, documented errors) and session relations", "The specification computes the objective itself and requires no better parameters nearby or on a grid; sampled profiles, noise, methods and fixed-parameter subsets."),
 "C18": (T + "trace validation of recorded concentrations against Fits", "Concentration equals R200 over the scale radius of the fit of the same profile; unit and selection relations; sampled."),
 "C19": (T + "Models checked (mass integral, slopes, monotonicity) with TLC and recorded values judged by ModelTrace", "Every closed form recomputed in the specification at random parameters and radii, including limits."),
 "C26": (T + "MassBins model-checked (partition, symmetry, tails) and recorded splits, summaries and tests judged by MassBinsTrace", "Small samples exhaustive in the model; recorded calls sampled, with empty, single and tied bins."),
 "C28": (T + "Cosmo checked exhaustively over its texts; recorded values judged by CosmoTrace", "All exponents and signs with a sample of mantissas (all of them in the thorough tier); random cosmologies."),
 "C20": (T + "MockHalo model-checked (thinning, mass integral); recorded halos followed shell by shell through the generator machine", "Mass integrals by Simpson's rule in the specification; counts that hinge on a rounding within 2e-5 are counted as ambiguous; sampled models, axes and resolutions."),
 "C21": (T + "recorded samples and lattices judged by module Sampling (membership, cell counts, spread)", "Uniformity is judged by cell counts at 5.5 standard deviations; membership exactly. The known bias of thick shells is reported as a finding."),
 "C22": (T + "snapshots of every layout written, read by the real readers and judged by SnapshotTrace", "Layouts, splits, missing data, precision and units sampled; values compared exactly up to the unit conversion."),
 "C27": (T + "GadgetBinary model-checked (scanning finds what was laid out); files whose bytes TLC lays out are read by the real readers and judged by SnapshotTrace", "Both formats, byte orders, precisions, identifier widths and random file splits; small sizes."),
 "C23": (T + "GroupsMC explored exhaustively over small catalogues cut into files anywhere; recorded group lists, halos and objects of random catalogues judged by GroupsTrace", "All catalogues to a size in the model; random catalogues of up to a dozen files replayed on the readers and the class, exactly."),
 "C24": (T + "MpiGroups explored exhaustively over all interleavings with deadlock freedom and termination; recorded runs under mpirun judged by GroupsTrace", "All process and file counts to a bound in the model; real runs with 1 to 8 processes, whose scheduling is not controlled."),
 "C25": (T + "PlotsMC explored exhaustively (histogram filling, names of files); recorded sessions of plotting calls judged figure by figure by PlotTrace", "Figures observed as handed to matplotlib when saved; random catalogues, selections and settings."),
 "C29": (T + "RequestsGen (TLC) makes every sound variety and every single fault of the requests of all functions; the sessions they make up on the real code are judged by RequestTrace", "All functions with all listed faults in every run; one fault at a time; random mixtures for the unit systems."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One runner, check.py; specifications in spec/, conformance harness in harness/. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
