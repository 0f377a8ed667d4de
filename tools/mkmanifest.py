"""Write MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DED = ("function contracts (postconditions on the real functions) discharged deductively: the current source is executed symbolically over all "
       "sizes and values, obligations go to a normal-form prover with z3 for case feasibility and side conditions")
BASE = ("Proof for all array sizes, all values and all batch ranks up to the stated rank, machine floats treated as reals; trusted: vf/sym.py (semantics of torch "
        "operations, replayed concretely on every run), vf/prove.py, z3, torch. ")
T = {
    "C01": (DED, "proof", BASE + "Distances are the contract of storch.cdist, discharged in C06."),
    "C02": (DED, "proof", BASE + "Distances are the contract of storch.cdist, discharged in C06."),
    "C03": (DED, "proof", BASE),
    "C04": (DED + "; relational contract between a batch and each of its systems", "proof", BASE + "The coordination numbers of the dependency are under the same contract; its EEQ charges are assumed padding-safe (whole-program runs are bounded)."),
    "C05": (DED + "; relational contract under a permutation of the atoms", "proof", BASE + "Coordination numbers of the dependency under the same contract; EEQ charges assumed equivariant (whole-program runs bounded)."),
    "C06": (DED + "; dependence on positions only through distances", "proof", BASE + "storch.cdist and the coordination numbers of the dependency are under contract; rigid motion through the EEQ charges is checked on bounded runs only."),
    "C07": (DED, "proof", BASE),
    "C08": (DED, "proof", BASE),
    "C09": (DED, "proof", BASE),
    "C10": (DED, "proof", BASE),
    "C11": (DED + "; sign contracts", "proof", BASE),
    "C12": (DED, "proof", BASE + "Number of registered terms bounded (0-4, 7, 8), registration histories bounded."),
    "C13": (DED, "proof", BASE + "EEQ charges are a stand-in tied to its arguments; whole-program runs bounded."),
    "C14": (DED + "; exceptional postconditions over symbolic shapes", "proof", BASE + "Ranks 0-2 in the proof; unknown model names bounded to a list."),
    "C15": (DED + "; every division, root, logarithm and power of the extracted computation is proved regular, also in branches that are not selected", "proof",
            BASE + "Overflow of regular expressions in floating point is bounded (concrete runs), not proved."),
    "C16": (DED + "; the specified derivative is obtained by symbolic differentiation of the proved weight formula", "proof", BASE),
    "C17": (DED + "; frame condition on the differentiation graph: no term that depends on a differentiable input passes a detaching operation, on any path over the requires_grad flags", "proof",
            BASE + "That torch's own operators propagate gradients is trusted and sampled by finite differences (bounded)."),
    "C18": (DED + "; precision contract: result dtypes, no narrowing conversion on any extracted value, double-precision Gaussians in single-precision runs", "proof",
            BASE + "Rounding inside torch kernels and dependencies is observed on bounded runs (dispatch monitor, change of default dtype), not proved."),
    "C19": (DED + "; frame conditions (no path writes to an argument, a long-lived object or library state) and noninterference (after a call on unrelated arguments the result is the same expression, free of their symbols)", "proof",
            BASE + "Histories longer than two calls and mutated look-ups are bounded runs (the look-up domain is complete)."),
    "C22": (DED, "proof", BASE + "Model, coordination numbers and EEQ are stand-ins tied to their arguments; whole-program runs bounded."),
    "C20": ("contract of the look-up evaluated over its whole finite domain (all methods, functionals, variants)", "proof",
            "Complete over the recorded collection; unknown names bounded to mutations of every known name."),
    "C21": ("data invariants evaluated on every entry of every table", "proof", "Complete over the finite tables; published values are those recorded from the pinned commit."),
}
TODO = {}

if __name__ == "__main__":
    ids = [json.loads(ln)["id"] for ln in open(f"{HERE}/properties.jsonl")]
    checks = []
    na = []
    for i in ids:
        if i in T:
            t, lv, note = T[i]
            checks.append({"property": i, "quick_cmd": f"{PY} check.py --property {i}", "thorough_cmd": f"VERIF_TIER=thorough {PY} check.py --property {i}",
                           "technique": t, "level": lv, "level_note": note})
        else:
            na.append({"property": i, "reason": TODO.get(i, "check under construction")})
    json.dump({"version": 1, "setup_cmd": f"{PY} -c 'import torch' 2>/dev/null; true", "checks": checks, "not_applicable": na},
              open(f"{HERE}/MANIFEST.json", "w"), indent=1)
