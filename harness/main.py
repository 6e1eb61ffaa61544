"""Worker: python main.py <harness module> <jobfile>.  Prints "@@"+json per job."""
import importlib, json, logging, os, sys, traceback
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
os.dup2(2, 1) if False else None


def main():
    name, path = sys.argv[1:3]
    with open(path) as f:
        d = json.load(f)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    mod = importlib.import_module(name)
    for i, job in d["jobs"]:
        try:
            r = mod.run_job(job, d["params"])
        except Exception:
            r = dict(ok=False, msg="exception in replay: " + traceback.format_exc()[-3000:])
        r["job"] = i
        out.write("@@" + json.dumps(r, default=str) + "\n")
        out.flush()
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
