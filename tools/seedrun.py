"""seedrun.py [ID...]: apply each planted change (default: all) to a scratch copy of /repo and run its property's quick check there.

Development aid; no registered check uses it.  Options: --demo also runs demo.sh on both trees, --prop C11 restricts.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(args):
    demo = "--demo" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    missed = []
    for i in ids:
        src = os.path.join(VERIF, "seeded", i)
        prop = json.load(open(os.path.join(src, "meta.json")))["property"]
        copy = f"/tmp/seedrun_{i}_{os.getpid()}"
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        try:
            subprocess.run(["git", "apply", os.path.join(src, "patch.diff")], cwd=copy, check=True)
            env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["./check", prop, "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
            hit = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={prop} ")]
            caught = r.returncode == 1 and bool(hit)
            print(f"{i:28s} {prop} {'caught' if caught else 'MISSED'} {hit[0][:150] if hit else ''}", flush=True)
            if demo:
                a, b = (subprocess.run(["bash", os.path.join(src, "demo.sh")], cwd=d, capture_output=True).returncode for d in ("/repo", copy))
                print(f"    demo: {a} unchanged, {b} changed", flush=True)
            if not caught:
                missed.append(i)
        finally:
            shutil.rmtree(copy)
    print("missed:", missed)


main(sys.argv[1:])
