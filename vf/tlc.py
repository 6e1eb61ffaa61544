"""Running TLC and getting behaviours / state graphs / trace verdicts out of it."""
import json, os, random, re, shutil, subprocess, tempfile, threading

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.lines = []      # lines emitted by the spec (decoded)
        self.violation = None
        self.out = ""


def _decode(line):
    # PrintT of a TLA+ string: a quoted string with \" and \\ escapes
    return json.loads(line)


def run(module, cfg, extra=(), env=None, workers=1, timeout=600, heap="3g", prefix="@", on_line=None):
    """Run TLC on specs/<module>.tla with config specs/<cfg>; returns TLCResult.

    A violated invariant/property or a failed postcondition sets .violation;
    anything else that is not a clean finish raises TLCError."""
    meta = tempfile.mkdtemp(prefix="vftlc.")
    res = TLCResult()
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noTE",
           "-noGenerateSpecTE"] if False else \
          ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", os.path.join(meta, "m"),
           "-noGenerateSpecTE"]
    cmd += list(extra) + [module + ".tla"]
    rest = []
    try:
        p = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace")
        killed = []
        t = threading.Timer(timeout, lambda: (killed.append(1), p.kill()))
        t.start()
        for line in p.stdout:
            if line.startswith('"' + prefix):
                s = _decode(line.strip())[len(prefix):]
                if on_line:
                    on_line(s)
                else:
                    res.lines.append(s)
            else:
                rest.append(line)
        p.wait()
        t.cancel()
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.out = "".join(rest)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", res.out)
    if m:
        res.transitions = int(m[-1][0].replace(",", ""))
        res.states = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", res.out)
        if m:
            res.states = res.transitions = int(m[-1].replace(",", ""))
    if killed:
        raise TLCError("TLC timed out after %ss: %s" % (timeout, res.out[-2000:]))
    if p.returncode in (12, 13):
        res.violation = res.out[-6000:]
    elif p.returncode != 0:
        if "ostcondition" in res.out or "POSTCONDITION" in res.out:
            res.violation = res.out[-6000:]
        else:
            raise TLCError("TLC exit %s: %s" % (p.returncode, res.out[-4000:]))
    return res


class Graph:
    """Labelled state graph emitted by a spec through ACTION_CONSTRAINT Emit.

    Each emitted line is JSON <<state, action, state'>>; the first is preceded by
    the initial states through Emit of "init"."""

    def __init__(self):
        self.ids = {}
        self.nodes = []
        self.succ = []       # node -> {actkey: [node]}
        self.acts = {}       # actkey -> act
        self.init = []
        self.nedges = 0

    def nid(self, s):
        k = json.dumps(s, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.nodes)
            self.nodes.append(s)
            self.succ.append({})
        return i

    def add(self, s, a, t):
        si, ti = self.nid(s), self.nid(t)
        k = json.dumps(a, sort_keys=True)
        self.acts[k] = a
        l = self.succ[si].setdefault(k, [])
        if ti not in l:
            l.append(ti)
            self.nedges += 1

    def dump(self):
        return dict(nodes=self.nodes, succ=self.succ, acts=self.acts, init=self.init)


def graph(module, cfg, timeout=600, heap="6g", env=None):
    g = Graph()
    inits = []

    def on_line(s):
        if s[0] == "I":
            inits.append(g.nid(json.loads(s[1:])))
        else:
            a, b, c = json.loads(s[1:])
            g.add(a, b, c)
    res = run(module, cfg, timeout=timeout, heap=heap, on_line=on_line, env=env,
              extra=("-deadlock",))
    g.init = sorted(set(inits))
    if not g.init and g.nodes:
        g.init = [0]
    return g, res


def simulate(module, cfg, num, depth, seed, timeout=600, env=None):
    """Random behaviours: the spec prints "@T"+json(list of [act, state]) when its
    history reaches the depth in env VF_DEPTH.

    TLC evaluates the printing invariant on every successor of a behaviour's last state, so
    lines that share their beginning are the same behaviour but for its last step: one of
    them is kept."""
    e = dict(env or {})
    e["VF_DEPTH"] = str(depth)
    par = 1 if num < 40 else min(6, num // 20)
    results, errors = [None] * par, []

    def one(k):
        try:
            rnd = random.Random(seed * 1000 + k)
            walks, last = [], [None, 0]

            def on_line(s):
                if s[0] != "T":
                    return
                h = len(s) // 2
                if last[0] is not None and last[0][:h] == s[:h]:
                    last[1] += 1
                    if rnd.randrange(last[1]) == 0:
                        last[0] = walks[-1] = s
                else:
                    walks.append(s)
                    last[:] = [s, 1]
            n = num // par + (1 if k < num % par else 0)
            r = run(module, cfg, timeout=timeout, on_line=on_line, env=e,
                    extra=("-deadlock", "-simulate", "num=%d" % n, "-depth", str(depth + 1),
                           "-seed", str(seed * 7919 + k)))
            results[k] = ([json.loads(w[1:]) for w in walks], r)
        except Exception as ex:
            errors.append(ex)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(par)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    walks = [w for ws, _ in results for w in ws]
    res = results[0][1]
    res.states = sum(r.states for _, r in results)
    res.transitions = sum(r.transitions for _, r in results)
    return walks, res


def check_traces(module, cfg, traces, timeout=600, env=None, heap="6g"):
    """Validate recorded traces with a trace spec.  The spec reads the JSON file named by
    env TRACES (an array of arrays of event records) and prints "@A<n>" when trace n
    (1-based) is accepted completely and "@P<n> <i>" on progress (optional).

    Returns (set of accepted ids, {id: furthest position}, TLCResult)."""
    f = tempfile.NamedTemporaryFile("w", suffix=".json", prefix="vftr.", delete=False)
    json.dump(traces, f)
    f.close()
    acc, prog = set(), {}

    def on_line(s):
        if s[0] == "A":
            acc.add(int(s[1:]))
        elif s[0] == "P":
            n, i = map(int, s[1:].split())
            prog[n] = max(prog.get(n, 0), i)
    e = dict(env or {})
    e["TRACES"] = f.name
    try:
        res = run(module, cfg, timeout=timeout, on_line=on_line, env=e, heap=heap,
                  extra=("-deadlock",))
    finally:
        os.unlink(f.name)
    return acc, prog, res
