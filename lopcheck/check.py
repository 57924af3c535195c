"""python3 -m lopcheck.check <property> [--tier quick|thorough]"""
import importlib, json, os, sys, time, traceback
from .rule import *

RULES = {
    "C01": ("rules_kernel", "c01"), "C02": ("rules_kernel", "c02"), "C04": ("rules_kernel", "c04"),
    "C05": ("rules_probit", "c05"), "C06": ("rules_probit", "c06"), "C07": ("rules_probit", "c07"), "C23": ("rules_probit", "c23"),
    "C09": ("rules_model", "c09"),
    "C10": ("rules_model", "c10"),
    "C25": ("rules_align", "c25"),
    "C26": ("rules_sets", "c26"),
    "C27": ("rules_sets", "c27"),
    "C28": ("rules_bayes", "c28"),
    "C35": ("rules_sets", "c35"),
    "C36": ("rules_sets", "c36"),
    "C24": ("rules_model", "c24"),
    "C14": ("rules_select", "c14"), "C15": ("rules_select", "c15"), "C22": ("rules_select", "c22"),
    "C16": ("rules_mixed", "c16"),
    "C12": ("rules_data", "c12"),
    "C11": ("rules_data", "c11"),
    "C13": ("rules_data", "c13"),
    "C21": ("rules_choice", "c21"), "C19": ("rules_choice", "c19"), "C08": ("rules_choice", "c08"),
    "C03": ("rules_model", "c03"),
    "C20": ("rules_names", "c20"), "C17": ("rules_effects", "c17"), "C18": ("rules_effects", "c18"),
}
TRUST = ["lopcheck abstract interpreter: Python and numpy semantics tables (lopcheck/interp.py, npsem.py)",
         "lopcheck canonical forms (lopcheck/terms.py)", "CPython ast module"]


def run(pid, tier="quick", root=None):
    repo = Repo(root)
    c = Check(pid, repo, tier)
    mod, fn = RULES[pid]
    getattr(importlib.import_module("lopcheck." + mod), fn)(c)
    return c


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    t0 = time.time()
    try:
        c = run(pid, tier)
    except (AnalysisBroken, SyntaxError) as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    cnt = c.counts()
    listed = {(p, k): txt for p, k, txt in known()}
    bad, kf = [], {}
    seen = set()
    for o in c.obs:
        if o[3] != "refuted":
            continue
        k = key_of(o)
        if (pid, k) in listed:
            kf[k] = listed[(pid, k)]
        else:
            bad.append(o)
    if verbose:
        for o in c.obs:
            if o[3] != "proved" or "-a" in argv:
                print("%-8s %s @ %s (%s) %s" % (o[3], o[0], o[1], o[2], o[4][:1500]))
    if not c.obs or (cnt["proved"] == 0 and not bad and cnt["unknown"] == 0):
        print("ANALYSIS-BROKEN property=%s no obligation was generated" % pid)
        return 2
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s :: %s" % (pid, k, kf[k]))
    rep = None
    if bad:
        d = os.path.join(HERE, "reports")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, pid + ".txt")
        with open(rep, "w") as f:
            f.write("property %s: %d violated obligation(s)\n" % (pid, len(bad)))
            f.write("re-run: cd /verif && python3 -m lopcheck.check %s -v\n\n" % pid)
            for o in bad:
                f.write("%s\n  rule: %s\n  construct: %s\n    %s\n\n" % (o[2], o[0], o[1], o[4]))
        for o in bad[:8]:
            print("%s: [%s] %s" % (o[2], o[0], o[1]))
            if o[4]:
                print("    " + o[4][:600].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    write_evidence(pid, tier, c, cnt, bad, kf, time.time() - t0)
    print("%s: %d obligations: %d proved, %d undecided, %d refuted (%d listed findings), %.1f s" % (
        pid, len(c.obs), cnt["proved"], cnt["unknown"], cnt["refuted"], len(kf), time.time() - t0))
    return 1 if bad else 0


def write_evidence(pid, tier, c, cnt, bad, kf, wall):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    rules = {}
    for o in c.obs:
        r = rules.setdefault(o[0], {"proved": 0, "unknown": 0, "refuted": 0})
        r[o[3]] += 1
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static: /repo's source is parsed on this run, a gated value graph (or call graph / dataflow facts) is "
                           "computed for the functions named below for all inputs at once, and each obligation is decided on it. "
                           "'proved' = canonical forms equal / rule satisfied on every path; 'undecided' = a construct the "
                           "analysis does not model is involved, no claim is made and no alarm raised.",
            "obligations": len(c.obs), "discharged": cnt["proved"], "undecided": cnt["unknown"], "refuted": cnt["refuted"],
            "rules": rules,
            "constructs": sorted({"%s @ %s (%s)" % (o[0], o[1], o[2]) for o in c.obs})[:400],
            "undecided_list": ["%s @ %s: %s" % (o[0], o[1], o[4][:160]) for o in c.obs if o[3] == "unknown"][:100],
            "known_findings": sorted(kf),
            "source_digest": c.repo.digest(), "modules_parsed": len([m for m in c.repo.modules.values() if not getattr(m, "fixture", 0)]),
            "functions_in_repo": len(c.repo.all_funcs()),
            "trusted_base": TRUST,
            "notes": c.notes,
        },
        "wall_s": round(wall, 3),
        "violations": ["%s: [%s] %s" % (o[2], o[0], o[1]) for o in bad][:50],
    }
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
