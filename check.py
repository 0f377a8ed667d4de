#!/usr/bin/env python3
"""Decide one property:  check.py --property Cxx   (VERIF_SEED, VERIF_TIER)."""
import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="vf_pyc_")
sys.pycache_prefix = SCRATCH  # never read a stale byte code file of /repo
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

TRUSTED = [
    "vf/sym.py: symbolic semantics of the torch operations the code calls (validated per run by concrete replay of every scenario)",
    "vf/prove.py: normal form of real expressions, case splitting, z3 translation",
    "z3 (feasibility of cases, integer and linear side conditions); cvc5 cross-check of unsat answers in the thorough tier",
    "CPython, torch, opt_einsum; machine floating point treated as real arithmetic (precision handled separately in C18)",
    "tad_mctc helper functions are executed symbolically; storch.cdist is represented by its contract (Euclidean distances), which C06 discharges against its source",
]


class Timeout(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid = a.property.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 840 if tier == "quick" else 3400

    def onalarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)

    from vf import prove, scen

    rep = scen.Report(pid, seed, tier, budget=limit - 160)
    internal = None
    try:
        rep.known = {k.get("match") for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid}
    except (OSError, KeyError):
        pass
    try:
        import torch

        torch.set_num_threads(4)
        mod = importlib.import_module(f"vf.props.{pid.lower()}")
        mod.run(rep)
    except Timeout:
        rep.notes.append("wall clock limit reached; reporting what was covered")
    except BaseException as e:
        internal = traceback.format_exc()
        rep.unsupported("check", f"{type(e).__name__}: {e}")
        rep.notes.append(internal[-2000:])
    signal.alarm(0)
    code = finish(rep, pid, tier, seed, t0, prove, internal)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def finish(rep, pid, tier, seed, t0, prove, internal):
    rdir = os.path.join(HERE, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    known = []
    try:
        known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
    except (OSError, KeyError):
        pass
    lines = []
    seen_known = []
    n = 0
    for title, text, replay in rep.violations:
        hit = [k for k in known if k.get("match") and k["match"] == title]
        if hit:
            if hit[0]["what"] not in seen_known:
                seen_known.append(hit[0]["what"])
            continue
        n += 1
        if n > 5:
            continue
        p = os.path.join(rdir, f"input{n}.json")
        json.dump({"property": pid, "title": title, "observed": text, "replay": replay}, open(p, "w"), indent=1, default=str)
        print(f"{title}: {text}")
        lines.append(f"VIOLATION property={pid} replay={p}")
    ref = [o for o in rep.obs if o.status == "refuted"]
    if ref and not lines:
        p = os.path.join(rdir, "obligation.txt")
        with open(p, "w") as f:
            for o in ref:
                f.write(f"failed obligation: {o.name}\n{o.detail}\n\n")
        for o in ref[:5]:
            print(f"failed obligation: {o.name}")
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    for k in known:
        if not k.get("match") or k["what"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for o in rep.obs:
        if o.status in ("undecided", "out-of-reach"):
            print(f"note: {o.status}: {o.name}: {o.detail.splitlines()[0][:160] if o.detail else ''}")
    S = prove.STATS
    dis = [o for o in rep.obs if o.status == "discharged"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(rep, "level", "proof"),
        "coverage": {
            "obligations": len(rep.obs), "discharged": len(dis),
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py --property {pid} --tier {tier}",
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(rep.functions),
            "undecided": [o.name for o in rep.obs if o.status == "undecided"],
            "out_of_reach_bounded_standin": rep.bounded[:60],
            "refuted": [o.name for o in ref],
            "paths": rep.paths,
            "leaves": S.leaves, "leaves_by_back_end": S.by,
            "z3_queries": S.z3_calls, "z3_seconds": round(S.z3_time, 2),
            "cvc5_queries": S.cvc5_calls, "cvc5_agreeing": S.cvc5_agree, "cvc5_seconds": round(S.cvc5_time, 2),
            "wrong_contracts_tried": rep.mustfail[0], "wrong_contracts_rejected": rep.mustfail[1],
            "evaluations": rep.concrete, "distinct_nontrivial": rep.concrete_nontrivial,
            "rule": "concrete replays of the same contracts on the real code with seeded random inputs and inputs directed at the "
                    "conditions in the symbolic terms; non-trivial: some input has more than one element",
            "samples": rep.samples[:3],
            "obligation_names": [o.name for o in rep.obs][:400],
            "notes": rep.notes[:20],
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    if not rep.obs and not rep.concrete:
        ev["coverage"]["notes"].append("nothing was covered")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} {tier}: {len(dis)}/{len(rep.obs)} obligations discharged, {rep.concrete} concrete replays, {ev['wall_s']} s")
    for ln in lines:
        print(ln)
    return 1 if lines else 0


if __name__ == "__main__":
    main()
