"""python -m pbt.main <property> : runs the check of one property (see MANIFEST.json)."""
import importlib
import json
import os
import shutil
import sys
import time

from . import core


def load(pid):
    mod = importlib.import_module(f"pbt.checks.{pid.lower()}")
    return mod


def known_findings(pid):
    path = os.path.join(core.VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def write_replay(pid, suite, case, msg, seed, tier):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{suite}-{core.digest(case):016x}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "suite": suite, "case": case, "message": msg, "seed": seed,
                   "tier": tier, "replay_with": f"bash replay.sh {path}"}, f, indent=1)
    return path


QUICK = 2  # the counts of the suites are what the quick tier runs, times this


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("VERIF_SUITE")
    t0 = time.time()
    ev_path = os.path.join(core.VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    mod = load(pid)
    suites = mod.SUITES
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for s in suites:
        s.quick = int(s.quick * scale * QUICK)
        s.thorough = int(s.thorough * scale)
    budget = getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 800)
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    res = core.run_suites(suites, tier, seed, budget, shrink_s=float(os.environ.get("VERIF_SHRINK", "25")), only=only)
    known = known_findings(pid)
    notes = []
    if hasattr(mod, "known_finding_lines"):
        for line in mod.known_finding_lines(known):
            print(f"KNOWN-FINDING: property={pid} {line}")
            notes.append(line)
    coverage = {
        "evaluations": sum(o["evaluations"] for o in res["suites"].values()),
        "distinct_nontrivial": sum(len(o["nontrivial"]) for o in res["suites"].values()),
        "rule": "; ".join(f"[{s.name}] {s.rule}" for s in suites),
        "not_judged": sum(o["skipped"] for o in res["suites"].values()),
        "per_suite": {
            n: {"evaluations": o["evaluations"], "distinct_nontrivial": len(o["nontrivial"]),
                "not_judged": o["skipped"], "labels": dict(sorted(o["labels"].items()))}
            for n, o in sorted(res["suites"].items())
        },
        "samples": [{"suite": n, "case": c} for n, o in sorted(res["suites"].items())
                    for c in o["samples"][:2]],
    }
    if notes:
        coverage["known_findings_seen"] = notes
    code = 0
    viol = 0
    if res["fails"]:
        size, name, case, msg, shard = min(res["fails"], key=lambda f: (f[0], f[1]))
        path = write_replay(pid, name, case, msg, seed, tier)
        print(f"suite {name}: {msg}"[:2000])
        print(f"VIOLATION property={pid} replay={path}")
        code, viol = 1, len(res["fails"])
    elif res["errors"]:
        print("HARNESS ERROR\n" + res["errors"][0], file=sys.stderr)
        code = 2
    with open(ev_path, "w") as f:
        json.dump({
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2), "violations": viol,
        }, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {coverage['evaluations']} cases, "
          f"{coverage['distinct_nontrivial']} non-trivial, {coverage['not_judged']} not judged, "
          f"{time.time() - t0:.1f}s, exit {code}")
    shutil.rmtree(os.environ["HYPOTHESIS_STORAGE_DIRECTORY"], ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
