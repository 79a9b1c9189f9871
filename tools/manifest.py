"""Source of /verif/MANIFEST.json: run `python3 tools/manifest.py > MANIFEST.json`."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C26": "Feasibility and optimality of the numbers a solver returns are properties of OSQP/ECOS/SCS/SLSQP runs in floating point; no argument "
           "over this package's source bounds them. C01-C03 decide what the source controls: the problem handed over and what is done with the outcome.",
    "C27": "Completeness of the turning points is a convergence property of an iterative numerical algorithm (the loop runs until a data-dependent "
           "condition on computed multipliers); deciding it needs the KKT theory of the algorithm over all real matrices plus rounding, out of reach of static analysis. "
           "C18 decides each step of the iteration (candidates, multipliers, choice, weights, when it stops, what is purged) against its definition, not that the steps reach every efficient portfolio.",
    "C28": "Whether a computed matrix has a negative eigenvalue is a fact about floating-point eigenvalue routines on run-time data. C11 decides that every estimator goes "
           "through the check and the documented repair formula.",
}
NOTE = {
    "C03": "interprocedural, path-sensitive: exceptional paths of every solve are enumerated symbolically",
    "C04": "typestate over call histories composed in spec/histories.py; histories are those of the spec cases (up to three public calls), arguments symbolic",
    "C05": "histories of two and three calls with symbolic targets; the induction over longer ones rests on the state observed after each call being equal",
    "C06": "alias-tracking effect analysis: a write reaching storage that originates at a caller's argument is reported",
    "C21": "effect analysis over every analysed path",
}
TECH = {
    "C03": "abstract interpretation: solver-status dominance of weight publication",
    "C04": "abstract interpretation: typestate of the optimiser over call histories",
    "C05": "abstract interpretation: value-graph equivalence over call histories",
    "C06": "abstract interpretation: alias and mutation (effect) analysis",
    "C20": "abstract interpretation: equivalence of raise conditions (BDD normal form)",
    "C21": "abstract interpretation: effect analysis",
    "C22": "abstract interpretation: import effect analysis",
    "C24": "abstract interpretation: raise-condition analysis",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] in NA:
        continue
    checks.append({
        "property": d["id"],
        "quick_cmd": "python3 check.py %s" % d["id"],
        "thorough_cmd": "python3 check.py %s" % d["id"],
        "technique": TECH.get(d["id"], "abstract interpretation: value-graph equivalence with a reference definition"),
        "level": "other",
        "level_note": "Sound relative to the models in vf/ (library operators, exact real arithmetic) and the reference definitions in spec/, for the argument "
                      "kinds the cases enumerate; code outside the analysed language is reported as undecided in the evidence, not as a violation."
                      + (" " + NOTE[d["id"]][0].upper() + NOTE[d["id"]][1:] + "." if d["id"] in NOTE else ""),
    })
print(json.dumps({"version": 1, "setup_cmd": "python3 -m compileall -q vf || true", "checks": checks,
                  "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
                  "notes": "No hooks in /repo. Pure-stdlib python3; nothing is executed from /repo, its source is parsed on every run."}, indent=1))
