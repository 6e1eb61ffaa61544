"""Replays behaviours of Runnable.tla into a real RunnableController with two parts."""
import shutil, tempfile
import cothread
from annotypes import add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.core import (AbortedError, Context, Controller, NotWriteableError, NumberMeta, Part, Process, Queue,
                          Subscribe)
from malcolm.modules.builtin.controllers import managercontroller
from malcolm.modules.builtin.hooks import DisableHook, ResetHook
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (AAxesToMove, ABreakpoints, ACompletedSteps, AContext, AGenerator,
                                            AStepsToDo, AbortHook, ConfigureHook, PauseHook, PostConfigureHook,
                                            PostRunArmedHook, PostRunReadyHook, PreConfigureHook, PreRunHook,
                                            RunHook, SeekHook)
from malcolm.modules.scanning.infos import RunProgressInfo
from common import replay_steps, settle
from stateful import GateBlock  # also stubs the managers' call of sync

CMDS = ["configure", "run", "abort", "pause", "completedSteps", "resume", "reset", "disable", "save"]


class Boom(Exception):
    pass


class ScanPart(Part):
    def prep(self, n, drv):
        self.n, self.drv = n, drv
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.registrar = registrar
        for hook, ph in ((PreConfigureHook, "preconf"), (PostConfigureHook, "postconf"), (PreRunHook, "prerun"),
                         (RunHook, "run"), (PostRunReadyHook, "ready"), (PauseHook, "pause"), (AbortHook, "abort"),
                         (DisableHook, "disable"), (ResetHook, "reset")):
            registrar.hook(hook, self.simple(ph))
        for hook, ph in ((ConfigureHook, "conf"), (PostRunArmedHook, "armed"), (SeekHook, "seek")):
            registrar.hook(hook, self.stepped(ph))

    def simple(self, ph):
        @add_call_types
        def f(context: AContext):
            self.go(context, ph)
        return f

    def stepped(self, ph):
        @add_call_types
        def f(context: AContext, completed_steps: ACompletedSteps, steps_to_do: AStepsToDo,
              generator: AGenerator, axesToMove: AAxesToMove, breakpoints: ABreakpoints):
            bad = self.drv.params_differ(generator, axesToMove, breakpoints)
            if bad:
                self.drv.problems.append("part %d in %s was given %s" % (self.n, ph, bad))
            self.go(context, ph, int(completed_steps), int(steps_to_do))
        return f

    def go(self, context, ph, *args):
        d = self.drv
        if ph == "reset" and d.c.state.value == "Configuring":
            ph = "creset"
        d.log[self.n].append([ph] + list(args))
        if ph not in d.gated or d.free:
            return
        key = (ph, self.n)
        if key in d.running:
            d.problems.append("part %d entered %s twice" % (self.n, ph))
        d.running.add(key)
        d.verdict.pop(key, None)
        q = d.gates[key] = Queue()
        try:
            if self.n == 2 and d.slow:
                ok = q.get()
            else:
                context.when_matches(["gate", "g", "value"], lambda v: d.verdict.get(key) is not None)
                ok = d.verdict[key]
        finally:
            d.running.discard(key)
        if not ok:
            raise Boom("boom")


class Driver:
    SETTLE = 60
    PART = ScanPart

    def __init__(self):
        self.gated, self.slow, self.free = set(), False, False
        self.gates, self.verdict, self.running = {}, {}, set()
        self.log = {1: [], 2: []}
        self.problems = []
        self.cfg = None
        self.tmp = tempfile.mkdtemp(prefix="vfrun.")
        self.process = Process("p")
        g = Controller("gate")
        self.gb = GateBlock("g")
        g.add_part(self.gb)
        self.process.add_controller(g)
        self.c = RunnableController("c", self.tmp)
        self.parts = {n: self.PART("p%d" % n).prep(n, self) for n in (1, 2)}
        for n in (1, 2):
            self.c.add_part(self.parts[n])
        self.process.add_controller(self.c)
        self.process.start()
        self.log = {1: [], 2: []}
        self.gated = {"run"}
        self.trail = []
        s = Subscribe(path=["c", "state", "value"])
        s.set_callback(self.state_update)
        self.c.handle_request(s).wait(5)
        self.res = []
        self.calls = []
        self.steps = []
        s = Subscribe(path=["c", "completedSteps", "value"])
        s.set_callback(lambda r: self.steps.append(int(r.value)))
        self.c.handle_request(s).wait(5)
        self.ctx = Context(self.process)

    def state_update(self, r):
        self.trail.append(r.value)
        self.on_state(r.value)

    def on_state(self, s):
        pass

    def close(self):
        self.free = True
        for k in list(self.running):
            self.verdict[k] = True
            self.gates[k].put(True)
        self.gb.g.set_value(self.gb.g.value + 1)
        settle(40)
        if self.c.resume_queue:
            self.c.resume_queue.put(False)
        settle(20)
        self.process.stop(timeout=5)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def params_differ(self, generator, axes, bps):
        if self.cfg is None:
            return None
        i, o, b = self.cfg
        if generator.size != i * o or [str(a) for a in axes] != ["x"] or [int(x) for x in bps] != list(b):
            return "size %s axes %s breakpoints %s" % (generator.size, list(axes), list(bps))

    def params(self, i, o, b):
        g = CompoundGenerator([LineGenerator("y", "mm", 0, 1, o), LineGenerator("x", "mm", 0, 1, i)], [], [], 0.1)
        d = dict(generator=g, axesToMove=["x"])
        if b:
            d["breakpoints"] = b
        return d

    def call(self, op, f, *args):
        self.calls.append(op)
        try:
            f(*args)
        except NotWriteableError:
            o = "refused"
        except AbortedError:
            o = "aborted"
        except Exception as e:
            o = str(e)
        else:
            o = "ok"
        self.calls.remove(op)
        self.res.append([op, o])

    def spawn(self, op, f, *args):
        cothread.Spawn(self.call, op, f, *args)

    def step(self, act):
        self.res, self.trail, self.steps = [], [], []
        self.log = {1: [], 2: []}
        n = self.act = act["n"]
        ctx = Context(self.process)
        if n == "configure":
            self.gated, self.slow = set(act["g"]), act["s"]
            self.cfg = (act["i"], act["o"], act["b"])
            self.spawn("configure", ctx.post, ["c", "configure"], self.params(*self.cfg))
        elif n in ("run", "resume", "abort", "disable", "reset"):
            self.spawn(n, ctx.post, ["c", n])
        elif n == "pause":
            if act["how"] == "put":
                self.spawn("pause", ctx.put, ["c", "completedSteps", "value"], act["s"])
            else:
                self.spawn("pause", ctx.post, ["c", "pause"], {} if act["s"] < 0 else {"lastGoodStep": act["s"]})
        elif n == "part":
            key = (act["ph"], act["p"])
            if act["p"] == 2 and self.slow:
                self.gates[key].put(act["ok"])
            else:
                self.verdict[key] = act["ok"]
                self.gb.g.set_value(self.gb.g.value + 1)
        elif n == "report":
            self.parts[act["p"]].registrar.report(RunProgressInfo(act["k"]))
        elif n == "refused":
            c = act["c"]
            if c == "completedSteps":
                self.spawn(c, ctx.put, ["c", c, "value"], 0)
            elif c == "configure":
                self.spawn(c, ctx.post, ["c", c], self.params(2, 1, []))
            elif c == "save":
                self.spawn(c, ctx.post, ["c", c], {"designName": "d"})
            else:
                self.spawn(c, ctx.post, ["c", c])
        settle(self.SETTLE)

    def check(self, st):
        if st is None:
            return None
        if self.problems:
            return self.problems[0]
        b = self.c._block
        got = sorted(self.res)
        want = sorted([list(r) for r in st["res"]])
        ok = len(got) == len(want) and all(
            g[0] == w[0] and (g[1] == w[1] or (w[1] == "*" and g[1] not in ("ok", "refused")))
            for g, w in zip(got, want))
        if not ok:
            return "calls that ended: %r, model %r (state %s)" % (got, want, b.state.value)
        if b.state.value != st["st"]:
            return "state %s, model %s" % (b.state.value, st["st"])
        if sorted(self.calls) != sorted(st["calls"]):
            return "calls in progress %r, model %r" % (sorted(self.calls), sorted(st["calls"]))
        if self.trail != st["trail"]:
            return "states gone through %r, model %r" % (self.trail, st["trail"])
        if st["st"] == "Fault" and st["msg"] != "*" and b.state.alarm.message != st["msg"]:
            return "fault message %r, model %r" % (b.state.alarm.message, st["msg"])
        for n in (1, 2):
            if self.log[n] != [list(x) for x in st["log"]]:
                return "part %d was asked to do %r, model %r" % (n, self.log[n], st["log"])
        if sorted(self.running) != sorted(tuple(x) for x in st["run"]):
            return "parts active %r, model %r" % (sorted(self.running), sorted(tuple(x) for x in st["run"]))
        # (on the way to Aborted, Disabled or Fault, and there, the counts mean nothing)
        for f, k in (("completedSteps", "done"), ("configuredSteps", "conf"), ("totalSteps", "total")):
            if st["st"] in ("Aborting", "Aborted", "Disabling", "Disabled", "Fault", "Resetting"):
                break
            if int(b[f].value) != st[k]:
                return "%s %s, model %s (in %s)" % (f, b[f].value, st[k], st["st"])
        if self.act == "report" and any(x > st["done"] for x in self.steps):
            return "completedSteps went through %r, model %r" % (self.steps, st["done"])
        for f in CMDS:
            if bool(b[f].meta.writeable) != st["wr"][f]:
                return "%s writeable %s in state %s" % (f, b[f].meta.writeable, st["st"])
        return None

    act = None


def run_job(job, params):
    return replay_steps(lambda init: Driver(), job, None)
