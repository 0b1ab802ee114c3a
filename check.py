"""check.py P01 [--tier quick|thorough] [--only REGEX] | --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import warnings

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("PYTHONHASHSEED") == "0" and not os.environ.get("VERIF_CHILD"):
    os.environ["VERIF_CHILD"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")
sys.setrecursionlimit(5000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from engine import harness

    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        r = json.load(open(a.replay))
        mod = importlib.import_module("props." + r["property"].lower())
        for i in mod.instances(r["tier"]):
            if i.name == r["instance"]:
                out = harness.run_concrete(i, r["inputs"])
                print("inputs", r["inputs"])
                print("outcome on the real code:", out)
                return 1 if out else 0
        print("no such instance")
        return 2
    mod = importlib.import_module("props." + a.prop.lower())
    return harness.run_property(a.prop, mod, a.tier, seed, a.only, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
