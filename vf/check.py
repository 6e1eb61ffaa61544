"""What a property's check is made of: model checking, replay of behaviours of the
specification into the real code, and validation of recorded traces by the specification."""
import importlib, json, os, random, shutil, sys, time, traceback
from . import tlc, replay, walks as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.detail = []
        self.violations = []      # (msg, replay path)
        self.known = []
        self.assumptions = []
        self.t0 = time.time()
        self.nrep = 0
        try:
            with open(KNOWN) as f:
                self.known_list = [k for k in json.load(f)["known"] if k["property"] == pid]
        except FileNotFoundError:
            self.known_list = []

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        """seconds left of the budget this tier gives itself"""
        return self.q(600, 5400) - (time.time() - self.t0)

    # -- specification ------------------------------------------------------
    def mc(self, module, cfg, workers=6, timeout=None, heap="6g"):
        """Exhaustively check the invariants/properties of the specification itself."""
        r = tlc.run(module, cfg, extra=("-deadlock",), workers=workers,
                    timeout=timeout or max(60, self.left()), heap=heap)
        if r.violation:
            raise tlc.TLCError("specification %s/%s violates its own properties:\n%s"
                               % (module, cfg, r.violation))
        self.states += r.states
        self.transitions += r.transitions
        self.detail.append(dict(stage="model check", spec=module, cfg=cfg,
                                distinct_states=r.states, transitions=r.transitions))
        return r

    # -- specification -> code ----------------------------------------------
    def sim(self, module, cfg, harness, num, depth, params=None, seed=None, stall=30, env=None,
            nproc=7, cap=None):
        """Random behaviours of the spec replayed into the code, compared at every step."""
        ws, r = tlc.simulate(module, cfg, num, depth, self.seed if seed is None else seed,
                             timeout=max(60, self.left()), env=env)
        ws = ws[:num if cap is None else cap]
        if len(ws) < min(num, cap or num) * 0.5:
            raise tlc.TLCError("simulation of %s gave only %d behaviours\n%s" % (module, len(ws), r.out[-2000:]))
        acts = {}
        for w in ws:
            for a, s in w:
                acts[a["n"]] = acts.get(a["n"], 0) + 1
        self.transitions += sum(acts.values())
        self._replay(harness, ws, params, dict(stage="simulate+replay", spec=module, cfg=cfg,
                     behaviours=len(ws), depth=depth, actions=acts), stall, nproc)

    def graph(self, module, cfg, harness, max_len, max_steps, params=None, stall=30, env=None,
              nproc=7, timeout=None):
        """All states of the spec; walks covering its transitions replayed into the code."""
        g, r = tlc.graph(module, cfg, timeout=timeout or max(60, self.left()), env=env)
        if r.violation:
            raise tlc.TLCError("specification %s violates its own properties:\n%s" % (module, r.violation))
        if not g.nodes:
            raise tlc.TLCError("no graph from %s: %s" % (module, r.out[-2000:]))
        ws, cov, tot = W.plan(g, self.seed, max_len, max_steps)
        jobs = []
        for start, steps in ws:
            cur = [start]
            job = [["init", g.nodes[start]]]
            for k, t in steps:
                nxt = []
                for c in cur:
                    for n in g.succ[c].get(k, []):
                        if n not in nxt:
                            nxt.append(n)
                # the code may have taken any of the allowed outcomes; the walk continues
                # only along the planned one, so only deterministic steps are followed
                job.append([g.acts[k], g.nodes[t] if len(nxt) == 1 else [g.nodes[n] for n in nxt]])
                if len(nxt) != 1:
                    break
                cur = [t]
            jobs.append(job)
        self.states += r.states
        self.transitions += r.transitions
        self._replay(harness, jobs, params, dict(stage="exhaustive graph+replay", spec=module,
                     cfg=cfg, distinct_states=r.states, graph_transitions=tot,
                     graph_transitions_replayed=cov, behaviours=len(jobs)), stall, nproc)

    def _replay(self, harness, jobs, params, detail, stall, nproc):
        rs = replay.run_jobs(harness, jobs, params, stall=stall, budget=max(30, self.left()),
                             nproc=nproc)
        self._collect(harness, jobs, params, rs, detail, stall)

    def _collect(self, harness, jobs, params, rs, detail, stall):
        done = [r for r in rs if r is not None]
        ok = [r for r in done if r["ok"]]
        detail["replayed"] = len(done)
        detail["steps_replayed"] = sum(r.get("steps", 0) for r in ok)
        self.traces += len(ok)
        bad = [r for r in done if not r["ok"]]
        unrep = 0
        for r in bad[:3]:
            if self.violations and time.time() - self.t0 > 120:
                break
            # confirm in a fresh process before believing it
            again = []
            for _ in range(2):
                a = replay.run_jobs(harness, [jobs[r["job"]]], params, stall=stall,
                                    budget=300, nproc=1)[0]
                again.append(a)
                if a and not a["ok"]:
                    break
            if any(a and not a["ok"] for a in again):
                self.violate(harness, jobs[r["job"]], params, r, detail)
            else:
                unrep += 1
        detail["not_reproduced"] = unrep
        if done:
            k = done[0]["job"]
            if len(self.detail) < 50 and isinstance(jobs[k], list):
                self.samples.append(dict(stage=detail["stage"], spec=detail["spec"], first_steps=jobs[k][:5]))
        self.steps += detail.get("steps_replayed", 0)
        self.detail.append(detail)

    def jitter(self, module, cfg, harness, num, depth, tmodule, tcfg, kmax=14, seed=None, params=None):
        """Commands of random behaviours of the spec, each arriving after a random number of
        scheduler rounds; what the code then does is recorded and validated by a trace spec."""
        seed = self.seed + 500 if seed is None else seed
        ws, r = tlc.simulate(module, cfg, num, depth, seed, timeout=max(60, self.left()))
        rnd = random.Random(seed)
        jobs = []
        for w in ws[:num]:
            full = rnd.randrange(4)
            jobs.append(dict(w=[[a, None] for a, s in w],
                             k=[40 if rnd.randrange(4) < full else rnd.randrange(kmax) for _ in w]))
        self.record(harness, jobs, tmodule, tcfg, params)

    # -- code -> specification ----------------------------------------------
    def record(self, harness, jobs, module, cfg, params=None, stall=30, nproc=7, batch=400):
        """Run jobs in the real code, recording a trace each, and validate every trace
        against the trace specification with TLC."""
        rs = replay.run_jobs(harness, jobs, params, stall=stall, budget=max(30, self.left()),
                             nproc=nproc)
        good = [r for r in rs if r is not None and r["ok"]]
        bad = [r for r in rs if r is not None and not r["ok"]]
        rejected = []
        nev = 0
        for b in range(0, len(good), batch):
            part = good[b:b + batch]
            if self.left() < 20 and b:
                break
            acc, prog, r = tlc.check_traces(module, cfg, [x["trace"] for x in part],
                                            timeout=max(60, self.left()))
            self.states += r.states
            self.transitions += r.transitions
            nev += sum(len(x["trace"]) for x in part)
            for n, x in enumerate(part, 1):
                if n in acc:
                    self.traces += 1
                else:
                    rejected.append((x, prog.get(n, 0)))
        unrep = 0
        for x, pos in rejected[:3]:
            a = replay.run_jobs(harness, [jobs[x["job"]]], params, stall=stall, budget=300, nproc=1)[0]
            rej = a is not None and not a["ok"]
            if a is not None and a["ok"]:
                acc, _, _ = tlc.check_traces(module, cfg, [a["trace"]])
                rej = 1 not in acc
            if rej:
                ev = x["trace"]
                self.violate(harness, jobs[x["job"]], params,
                             dict(msg="recorded trace not a behaviour of %s: stops at event %d of %d: %s"
                                  % (module, pos, len(ev), json.dumps(ev[max(0, pos - 3):pos + 2])[:900]),
                                  trace=ev, tracespec=[module, cfg]), None)
            else:
                unrep += 1
        for r in bad[:3]:
            a = replay.run_jobs(harness, [jobs[r["job"]]], params, stall=stall, budget=300, nproc=1)[0]
            if a and not a["ok"]:
                self.violate(harness, jobs[r["job"]], params, r, None)
            else:
                unrep += 1
        self.steps += nev
        if good:
            self.samples.append(dict(stage="record+validate", spec=module, job=jobs[good[0]["job"]],
                                     first_events=good[0]["trace"][:12]))
        self.detail.append(dict(stage="record+validate", spec=module, cfg=cfg, traces=len(good),
                                events=nev, not_reproduced=unrep))

    # -- verdict --------------------------------------------------------------
    def violate(self, harness, job, params, r, detail):
        for k in self.known_list:
            if k["match"] in r.get("msg", ""):
                self.known.append(k["text"])
                return
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        self.nrep += 1
        path = os.path.join(EVID, "replay", "%s-%d.json" % (self.pid, self.nrep))
        if isinstance(job, list) and isinstance(r.get("step"), int):
            off = 1 if job and job[0][0] == "init" else 0
            job = job[:r["step"] + 1 + off]
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, harness=harness, params=params, job=job, result=r),
                      f, indent=1, default=str)
        self.violations.append((r.get("msg", ""), path))

    def finish(self, level):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                steps_compared=self.steps, samples=self.samples,
                                stages=self.detail),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations),
                  assumptions=self.assumptions)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for t in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        for m, p in self.violations:
            print("# " + m.replace("\n", "\n# ")[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        return 1 if self.violations else 0
