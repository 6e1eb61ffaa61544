"""Replays behaviours of Hooks.tla into Controller.run_hooks with real parts, hooks and contexts."""
import cothread
from annotypes import Anno, Array, add_call_types
from typing import Union
from malcolm.core import (AbortedError, Context, Controller, Info, NumberMeta, Part, Process, Queue)
from malcolm.modules.builtin.hooks import AContext, ControllerHook
from common import replay_steps, settle


class NInfo(Info):
    def __init__(self, n):
        self.n = n


with Anno("infos"):
    AInfos = Union[Array[NInfo]]


class H1(ControllerHook):
    def validate_return(self, ret):
        assert ret != 1.5, "Bad return"
        return AInfos(ret)


class H2(ControllerHook):
    def validate_return(self, ret):
        assert ret != 1.5, "Bad return"
        return AInfos(ret)


class Boom(Exception):
    pass


class Gate(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.g = {}
        for i in range(1, 5):
            self.g[i] = NumberMeta("int32", "g").create_attribute_model(0)
            registrar.add_attribute_model("g%d" % i, self.g[i])


class P(Part):
    def prep(self, n, drv):
        self.n, self.drv = n, drv
        self.st, self.kind, self.stopped = "idle", "", False
        self.q = Queue()
        self.token = 0
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.register_hooked(H1, self.phase)
        if self.n > 1:
            self.register_hooked([H2], self.phase)

    @add_call_types
    def phase(self, context: AContext):
        try:
            return self.body(context)
        finally:
            self.st = "ended"

    def body(self, context):
        d = self.drv
        self.st, self.kind, self.stopped = "run", d.kinds[self.n - 1], False
        self.token += 1
        tok = self.token
        how = None
        if self.kind in ("ctx", "slow"):
            def match(v):
                return v // 8 == tok
            try:
                if tok % 2:
                    context.when_matches(["gate", "g%d" % self.n, "value"], match)
                else:
                    context.wait_all_futures(
                        [context.when_matches_async(["gate", "g%d" % self.n, "value"], match)])
            except AbortedError:
                self.stopped = True
                if self.kind == "ctx":
                    raise
            else:
                how = HOWS[d.gate.g[self.n].value % 8]
        if how is None:
            how = self.q.get()
        if how == "raise":
            raise Boom("raise%d" % self.n)
        if how == "badret":
            return 1.5
        if how == "info":
            return [NInfo(self.n * 10), NInfo(tok)]


HOWS = ["info", "none", "raise", "badret"]


class Driver:
    def __init__(self, init):
        self.process = Process("p")
        self.gate = Gate("g")
        g = Controller("gate")
        g.add_part(self.gate)
        self.c = Controller("c")
        n = 4
        self.parts = [P("p%d" % i).prep(i, self) for i in range(1, n + 1)]
        for p in self.parts:
            self.c.add_part(p)
        self.process.add_controller(g)
        self.process.add_controller(self.c)
        self.process.start()
        self.ctx = {p: Context(self.process) for p in self.parts}
        self.ph = "idle"
        self.res = None
        self.kinds = None

    def close(self):
        for _ in range(3):
            for p in self.parts:
                self.ctx[p].stop()
                p.q.put("none")
        settle(30)
        self.process.stop(timeout=5)

    def run(self, h):
        try:
            r = self.c.run_hooks((h(p, self.ctx[p]) for p in self.parts))
        except AbortedError:
            res = dict(o="raise", err="aborted", ret=[])
        except Boom as e:
            res = dict(o="raise", err=str(e), ret=[])
        except Exception as e:
            res = dict(o="raise", err="badret", ret=[], exc=repr(e))
        else:
            res = dict(o="return", err="", ret=r)
        self.res = res
        self.ph = "idle"
        self.ended = [p.n for p in self.parts if p.st == "run"]
        for p in self.parts:
            p.st, p.kind, p.stopped = "idle", "", False

    def step(self, act):
        self.res = None
        if act["n"] == "start":
            self.kinds = act["k"]
            self.ph = "run"
            cothread.Spawn(self.run, H1 if act["h"] == 1 else H2)
        elif act["n"] == "end":
            p = self.parts[act["p"] - 1]
            if p.kind == "ctx" or (p.kind == "slow" and not p.stopped):
                self.gate.g[p.n].set_value(p.token * 8 + HOWS.index(act["how"]))
            else:
                p.q.put(act["how"])
        else:
            for c in self.ctx.values():
                c.stop()
        settle(15)

    def check(self, st):
        r = st["res"]
        if r["o"] == "":
            if self.res is not None:
                return "phase ended early: %r (model: still %s with parts %s)" % (self.res, st["ph"], st["part"])
        else:
            if self.res is None:
                return "phase has not ended, model %r" % r
            if self.ended:
                return "phase ended with parts %r still running" % self.ended
            if r["o"] != self.res["o"]:
                return "phase outcome %r, model %r" % (self.res, r)
            if r["o"] == "raise":
                want = r["err"]
                got = self.res["err"]
                if want.startswith("badret"):
                    if got != "badret":
                        return "phase raised %r, model %r" % (self.res, want)
                elif want != got:
                    return "phase raised %r, model %r" % (self.res, want)
            else:
                want = {"p%d" % (i + 1): x for i, x in enumerate(r["ret"]) if x != "-"}
                got = self.res["ret"]
                if set(got) != set(want):
                    return "phase returned infos of %r, model %r" % (sorted(got), sorted(want))
                for k, x in want.items():
                    n = int(k[1:])
                    g = [i.n for i in got[k]] if got[k] is not None else []
                    w = [n * 10, self.parts[n - 1].token] if x == "info" else []
                    if g != w:
                        return "part %s returned %r, phase gave %r" % (k, w, g)
        for p, m in zip(self.parts, st["part"]):
            got = dict(st=p.st, kind=p.kind, stopped=p.stopped)
            want = dict(m)
            if p.st == "ended" or p.kind == "deaf":
                got["stopped"] = want["stopped"]
            if got != want:
                return "part %d is %r, model %r" % (p.n, got, want)
        return None


def run_job(job, params):
    return replay_steps(Driver, job, dict(res=dict(o=""), ph="idle", part=[dict(st="idle", kind="", stopped=False)] * 4))
