#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   |   python3 check.py --replay <file>"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.check import Check
from vf import replay, tlc


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        r = replay.run_jobs(d["harness"], [d["job"]], d["params"], nproc=1)[0]
        if r["ok"] and "trace" in r and d["result"].get("tracespec"):
            acc, prog, _ = tlc.check_traces(*d["result"]["tracespec"], [r["trace"]])
            print(json.dumps(r["trace"], indent=0))
            print("accepted" if acc else "REJECTED at %s" % prog)
            return 0 if acc else 1
        print(json.dumps(r, indent=1))
        return 0 if r["ok"] else 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    mod.run(ck)
    return ck.finish(getattr(mod, "LEVEL", "model_checking"))


if __name__ == "__main__":
    sys.exit(main())
