import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    args = ap.parse_args()
    t0 = time.time()
    from vp import core

    pid = args.property
    mod = importlib.import_module(f"vp.props.{pid.lower()}")
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        with core.quiet():
            kind, val = core.run_case(subs[rep["sub"]], rep["case"])
        if kind == "violation":
            print(f"replayed: {val}")
            print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
            return 1
        print(f"replayed: {kind}")
        return 0

    known = []
    kf = os.path.join(core.VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as fh:
            known = [k for k in json.load(fh)["findings"] if k["property"] == pid]
    known_cases = set()
    for k in known:
        if k.get("status") != "known":
            continue
        case, sub = k["case"], subs[k["sub"]]
        known_cases.add((k["sub"], core.digest(case)))
        with core.quiet():
            kind, val = core.run_case(sub, case)
        if kind == "violation":
            print(f"KNOWN-FINDING: property={pid} {k['what']} [{" ".join(str(val).split())}]")
        else:
            print(f"note: the recorded finding '{k['what']}' of {pid} does not occur on this tree")

    res = core.run_property(pid, mod, args.tier, args.seed, only=args.sub)
    violations = {n: cm for n, cm in res["violations"].items() if (n, core.digest(cm[0])) not in known_cases}
    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": res["coverage"],
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    cov = res["coverage"]
    for name, c in cov["by_sub_check"].items():
        print(f"{pid} {name}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {c['discarded']} discarded")
    if violations:
        os.makedirs(os.path.join(core.VERIF, "replay"), exist_ok=True)
        for name, (case, msg) in violations.items():
            path = os.path.join(core.VERIF, "replay", f"{pid}-{name.replace(chr(32), "_")}-{core.digest(case)}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "sub": name, "case": case, "message": msg, "seed": args.seed}, fh, indent=1)
                fh.write("\n")
            print(f"{name}: {msg[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
    if res["errors"]:
        print("ERROR in the checking machinery:", file=sys.stderr)
        for e in res["errors"][:3]:
            print(e, file=sys.stderr)
    print(f"{pid}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} non-trivial, {time.time()-t0:.1f} s")
    if violations:
        return 1
    return 2 if res["errors"] else 0


def entry():
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ["VERIF_SCRATCH"] = scratch
    pid = os.getpid()
    try:
        return main()
    finally:
        if os.getpid() == pid:
            shutil.rmtree(scratch, True)


if __name__ == "__main__":
    sys.exit(entry())
