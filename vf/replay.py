"""Parent side of replaying behaviours into the real code, in parallel worker processes."""
import json, os, selectors, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def worker_env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONPATH="")
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def run_jobs(harness, jobs, params=None, nproc=7, stall=60, budget=600, stop_after=3):
    """Run jobs (JSON-able) through harness module `harness` (harness/<name>.py).

    Each worker process handles a contiguous slice; it prints one JSON line per job:
    {"job": i, "ok": bool, ...}.  A worker silent for `stall` seconds, or dead, has its
    current job retried alone once; failing again it is reported as {"ok": False,
    "hang": True}.  Returns list of results (None where the budget ran out)."""
    results = [None] * len(jobs)
    if not jobs:
        return results
    t_end = time.time() + budget
    tmp = tempfile.mkdtemp(prefix="vfjobs.")
    pending = list(range(len(jobs)))
    nproc = max(1, min(nproc, len(jobs)))
    chunk = max(1, min(200, (len(pending) + nproc * 4 - 1) // (nproc * 4)))
    queue = [pending[i:i + chunk] for i in range(0, len(pending), chunk)]
    queue.reverse()
    running = {}
    sel = selectors.DefaultSelector()
    retried = {}
    nfail = 0
    nstart = 0

    def start(idxs):
        nonlocal nstart
        nstart += 1
        path = os.path.join(tmp, "j%d.json" % nstart)
        with open(path, "w") as f:
            json.dump(dict(params=params or {}, jobs=[[i, jobs[i]] for i in idxs]), f)
        err = open(os.path.join(tmp, "e%d" % nstart), "w+")
        p = subprocess.Popen([PY, os.path.join(ROOT, "harness", "main.py"), harness, path],
                             stdout=subprocess.PIPE, stderr=err, stdin=subprocess.DEVNULL,
                             env=worker_env(), cwd=os.environ.get("VF_REPO", "/repo"),
                             start_new_session=True)
        os.set_blocking(p.stdout.fileno(), False)
        w = dict(p=p, idxs=list(idxs), buf=b"", last=time.time(), err=err, path=path)
        running[p.stdout.fileno()] = w
        sel.register(p.stdout, selectors.EVENT_READ, w)

    def finish(w, killed):
        nonlocal nfail
        sel.unregister(w["p"].stdout)
        del running[w["p"].stdout.fileno()]
        if killed:
            try:
                os.killpg(w["p"].pid, 9)
            except OSError:
                pass
        w["p"].wait()
        w["p"].stdout.close()
        left = [i for i in w["idxs"] if results[i] is None]
        w["err"].seek(0)
        errtxt = w["err"].read()[-3000:]
        w["err"].close()
        os.unlink(w["path"])
        if left:
            bad = left[0]
            rest = left[1:]
            n = retried.get(bad, 0)
            retried[bad] = n + 1
            if n >= 1:
                results[bad] = dict(job=bad, ok=False, hang=bool(killed), crash=not killed,
                                    msg=("no progress for %ss" % stall if killed else
                                         "worker exited %s: %s" % (w["p"].returncode, errtxt[-800:])),
                                    stderr=errtxt)
                nfail += 1
            else:
                queue.append([bad])
            if rest:
                queue.insert(0, rest)

    try:
        while queue or running:
            if time.time() > t_end or nfail >= stop_after:
                break
            while queue and len(running) < nproc:
                start(queue.pop())
            for key, _ in sel.select(timeout=0.5):
                w = key.data
                try:
                    data = key.fileobj.read()
                except BlockingIOError:
                    data = None
                if data is None:
                    continue
                if data == b"":
                    finish(w, False)
                    continue
                w["last"] = time.time()
                w["buf"] += data
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    if not line.startswith(b"@@"):
                        continue
                    r = json.loads(line[2:])
                    results[r["job"]] = r
                    if not r["ok"]:
                        nfail += 1
            for w in list(running.values()):
                if time.time() - w["last"] > stall:
                    finish(w, True)
    finally:
        for w in list(running.values()):
            try:
                os.killpg(w["p"].pid, 9)
            except OSError:
                pass
            w["p"].wait()
            w["err"].close()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results
