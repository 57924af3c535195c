"""Regenerates MANIFEST.json from the rule table and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from lopcheck.check import RULES
VG = "static analysis: abstract interpretation into a gated value graph with symbolic array sizes, equality of canonical forms"
TECH = {
 "C03": VG + " (round-trip and layout obligations)", "C08": VG + " plus sign analysis of index roles",
 "C08": VG + " plus exhaustive constant propagation over order types of scores and coordinates",
 "C09": VG, "C10": VG + " and derivative checks against the symbolic derivative of the stated objective",
 "C19": VG + "; overflow-sign analysis of exponents; draws tracked as symbolic variables",
 "C21": VG + "; relational invariants of the loop state over unrolled symbolic iterations",
 "C24": VG + "; matrix calculus on symbolic arrays against the stated evidence",
 "C11": "static analysis: typestate of the fit flag over all paths (interprocedural), restore-on-all-paths dataflow",
 "C12": "static analysis: symbolic interpretation of add paths; effect ordering (no write before a possible raise)",
 "C13": "static analysis: symbolic interpretation of label maps, coverage of label sources",
 "C14": "static analysis: index provenance by abstract interpretation of selectors (which positions of which index set a choice can be), constant propagation of the selection loop over index-set scenarios",
 "C15": "static analysis: definite assignment of the score on every selection path and agreement of score and choice in the gated value graph",
 "C16": "static analysis: typestate of shared samples and call counts by abstract interpretation of selection sequences, parts seen only through their interface; decision compared in the gated value graph",
 "C17": "static analysis: source/sink effect analysis of nondeterminism",
 "C18": "static analysis: interprocedural ownership/mutation effect analysis",
 "C26": VG,
 "C27": "static analysis: constant propagation of the sampling loops over scripted sequences of draws (every draw replaced by each of a set of outcomes), index provenance",
 "C28": VG + ", with the criterion compared on finite tables of answer probabilities whose entries stay symbolic",
 "C35": "static analysis: constant propagation of the packing loop over all small sizes, comparison graphs and scripted sequences of draws",
 "C36": "static analysis: exhaustive constant propagation over the order types of small point sets (the filter only compares coordinates)",
 "C25": VG + "; comparison of the decision in the gated value graph",
 "C20": "static analysis: name/member/arity resolution, definite assignment, missing return",
}
BOUNDED = ("Decided from the current source by constant propagation over every enumerated scenario (small numbers of points, draws and "
        "comparison graphs; bounds in DESIGN.md section 2); larger scenarios are not covered. An obligation whose construct the engine does "
        "not model is left undecided, never an alarm.")
NOTE = ("Decided from the current source for all inputs and array sizes at once; an obligation whose construct the engine does not "
        "model is left undecided (reported in the evidence, never an alarm). Real arithmetic: rounding is not modelled. Trusts the "
        "Python/numpy semantics tables of lopcheck and its canonical forms.")
NA = {
 "C31": "termination and convergence of a damped Newton iteration quantify over runtime floating-point values; no sound static argument in reach bounds them (C10 decides the gradient, Hessian, direction and line search it is made of)",
 "C32": "positive definiteness in floating point depends on runtime data and conditioning; not decidable from the source (C02 decides symmetry and noise placement)",
 "C33": "accuracy reached by a stochastic tuning loop depends on sampled runtime quantities",
 "C34": "improvement of the evidence by a numeric optimiser depends on runtime values",
 "C37": "a distributional statement about samples; C21 decides the transition rule statically",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    if i in RULES:
        checks.append({"property": i, "quick_cmd": "python3 -m lopcheck.check %s --tier quick" % i,
                       "thorough_cmd": "python3 -m lopcheck.check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, VG), "level": "other", "level_note": BOUNDED if i in ("C27", "C28", "C35", "C36") else NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "rules for this property are not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import lopcheck.check'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: nothing in /repo is instrumented. /repo carries only fix: commits."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
