"""Replays behaviours of Stateful.tla into a real StatefulController / ManagerController."""
import os, shutil, tempfile
import cothread
from annotypes import Anno, add_call_types
from malcolm.core import (AbortedError, Context, Controller, NotWriteableError, NumberMeta, Part, Process, Queue,
                          Subscribe, config_tag)
from malcolm.modules.builtin.controllers import BasicController, ManagerController, StatefulController, managercontroller
from malcolm.modules.builtin.hooks import (AContext, DisableHook, LoadHook, ResetHook, SaveHook)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, StatefulStates
from common import replay_steps, settle

if hasattr(managercontroller, "subprocess"):
    class _NoSync:
        def call(self, *a, **k):
            return 0
        run = check_call = check_output = call
    managercontroller.subprocess = _NoSync()

ss = StatefulStates


class Boom(Exception):
    pass


class GatePart(Part):
    """hooked in every phase; each run of it waits for its gate"""

    def prep(self, n, drv):
        self.n, self.drv = n, drv
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ResetHook, self.on_reset)
        registrar.hook(DisableHook, self.on_disable)
        registrar.hook(SaveHook, self.on_save)
        registrar.hook(LoadHook, self.on_load)
        if self.n == 1:
            self.pa = NumberMeta("int32", "pa", tags=[config_tag()]).create_attribute_model(0)
            registrar.add_attribute_model("pa", self.pa, self.pa.set_value)

    @add_call_types
    def on_reset(self, context: AContext):
        self.gate(context, "reset")

    @add_call_types
    def on_disable(self, context: AContext):
        self.gate(context, "disable")

    @add_call_types
    def on_save(self, context: AContext):
        self.gate(context, "save")
        return {}

    @add_call_types
    def on_load(self, context: AContext):
        self.gate(context, "load")

    def gate(self, context, kind):
        d = self.drv
        if not d.gated:
            return
        i = d.current[kind]
        key = (i, self.n)
        d.running.add(key)
        try:
            if self.n == 1:
                q = d.gates[key] = Queue()
                a = d.gate_attr
                val = []
                context.when_matches(["gate", "g", "value"], lambda v: d.verdict.get(key) is not None)
                ok = d.verdict[key]
            else:
                q = d.gates[key] = Queue()
                ok = q.get()
        finally:
            d.running.discard(key)
        if not ok:
            raise Boom("boom%d%d" % key)


class GateBlock(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.g = NumberMeta("int32", "g").create_attribute_model(0)
        registrar.add_attribute_model("g", self.g)


def add_cf(c):
    c.cf = NumberMeta("int32", "cf").create_attribute_model(0)
    c.field_registry.add_attribute_model("cf", c.cf, c.cf.set_value)
    c.set_writeable_in(c.cf, ss.READY, ss.FAULT)


class Driver:
    def __init__(self, manager):
        self.manager = manager
        self.gated = False
        self.current, self.gates, self.verdict, self.running = {}, {}, {}, set()
        self.tmp = tempfile.mkdtemp(prefix="vfst.")
        self.process = Process("p")
        g = Controller("gate")
        self.gb = GateBlock("g")
        g.add_part(self.gb)
        self.gate_attr = self.gb.g
        self.process.add_controller(g)
        if manager:
            self.kid = BasicController("kid")
            self.kx = NumberMeta("int32", "x", tags=[config_tag()]).create_attribute_model(0)
            self.kid.field_registry.add_attribute_model("x", self.kx, self.kx.set_value)
            self.process.add_controller(self.kid)
            self.c = ManagerController("c", self.tmp)
            self.c.add_part(ChildPart("kid", "kid", initial_visibility=True, stateful=False))
        else:
            self.c = StatefulController("c")
        add_cf(self.c)
        for i in (1, 2):
            self.c.add_part(GatePart("p%d" % i).prep(i, self))
        self.process.add_controller(self.c)
        self.process.start()
        self.ctx = Context(self.process)
        if manager:
            self.ctx.put(["c", "exports", "value"], ExportTable(["kid.x"], ["xx"]))
            self.ctx.post(["c", "save"], {"designName": "d1"})
        self.gated = True
        self.fields = ["disable", "reset", "pa", "cf"] + (
            ["save", "design", "layout", "exports", "xx"] if manager else [])
        self.seen = []
        s = Subscribe(path=["c"])
        s.set_callback(self.on_update)
        self.c.handle_request(s).wait(5)
        self.res = []
        self.seen = self.seen[-1:]
        self.w = 0

    def tup(self, b):
        al = b["state"]["alarm"]
        h = b["health"]
        return dict(state=b["state"]["value"], sev=int(getattr(al["severity"], "value", al["severity"])), msg=al["message"],
                    hv=h["value"], hsev=int(getattr(h["alarm"]["severity"], "value", h["alarm"]["severity"])),
                    wr={f: bool(b[f]["meta"]["writeable"]) for f in self.fields if f in b})

    def on_update(self, r):
        t = self.tup(r.value)
        if not self.seen or self.seen[-1] != t:
            self.seen.append(t)

    def close(self):
        self.gated = False
        for k in list(self.running):
            self.verdict[k] = True
            if k in self.gates:
                self.gates[k].put(True)
        self.gate_attr.set_value(self.gate_attr.value + 1)
        settle(30)
        self.process.stop(timeout=5)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def call(self, i, f, *args):
        try:
            f(*args)
        except NotWriteableError:
            o = "refused"
        except Exception as e:
            o = str(e)
        else:
            o = "ok"
        self.res.append([i, o])

    def step(self, act):
        self.res = []
        self.seen = self.seen[-1:]
        n = act["n"]
        ctx = Context(self.process)
        if n == "call":
            k = act["k"]
            self.current[k] = act["i"]
            if k == "load":
                cothread.Spawn(self.call, act["i"], ctx.put, ["c", "design", "value"], "d1")
            elif k == "save":
                cothread.Spawn(self.call, act["i"], ctx.post, ["c", "save"], {"designName": "d1"})
            else:
                cothread.Spawn(self.call, act["i"], ctx.post, ["c", k])
        elif n == "badsave":
            cothread.Spawn(self.call, act["i"], ctx.post, ["c", "save"], {"designName": "template_x"})
        elif n == "part":
            key = (act["i"], act["p"])
            if act["p"] == 1:
                self.verdict[key] = act["ok"]
                self.gate_attr.set_value(self.gate_attr.value + 1)
            else:
                self.gates[key].put(act["ok"])
        elif n == "write":
            self.w += 1
            f = {"pa": "pa", "cf": "cf", "xx": "xx"}[act["f"]]
            before = self.value(f)
            self.call(0, ctx.put, ["c", f, "value"], self.w)
            settle(6)
            after = self.value(f)
            if self.res[0][1] == "ok" and after != self.w:
                self.res = [[0, "write had no effect"]]
            if self.res[0][1] == "refused" and after != before:
                self.res = [[0, "refused write had an effect"]]
        elif n == "rebuild":
            self.kid._block.remove_endpoint("x")
            settle(20)
            self.kid.add_block_field("x", self.kx, self.kx.set_value, False)
            settle(20)
            if "xx" not in self.c._block:
                self.res = [[0, "exported field did not come back"]]
            self.seen = self.seen[-1:]
        settle(30)

    def value(self, f):
        return self.c._block[f].value

    def same(self, got, want):
        if got["state"] != want["state"]:
            return "state %s, model %s" % (got["state"], want["state"])
        if got["sev"] != want["sev"] or got["hsev"] != want["sev"]:
            return "in %s state alarm severity %s health severity %s, model %s" % (
                got["state"], got["sev"], got["hsev"], want["sev"])
        if want["sev"] == 0:
            if got["hv"] != "OK" or got["msg"] != "":
                return "in %s health %r, alarm message %r" % (got["state"], got["hv"], got["msg"])
        elif got["hv"] != got["msg"] or (want["msg"] != "*" and want["msg"] != got["msg"]):
            return "in %s health %r alarm message %r, model %r" % (got["state"], got["hv"], got["msg"], want["msg"])
        for f in self.fields:
            if f in got["wr"] and got["wr"][f] != want["wr"][f]:
                return "in %s field %s writeable %s, model %s" % (got["state"], f, got["wr"][f], want["wr"][f])
        return None

    def check(self, st):
        if st is None:
            return None
        res = [list(r) for r in st["res"]]
        got = self.res
        if len(res) != len(got) or any(a[0] != b[0] or (b[1] != "*" and a[1] != b[1]) or
                                       (b[1] == "*" and a[1] in ("ok", "refused")) for a, b in zip(got, res)):
            return "calls ended %r, model %r" % (got, res)
        m = self.same(self.seen[-1], st["state"])
        if m:
            return "last shown: " + m
        for f in self.fields:
            if f not in self.seen[-1]["wr"]:
                return "field %s missing" % f
        trail = self.seen[1:]
        # one notification per transition: every shown snapshot is one of the model's states in order
        j = -1
        for t in trail:
            ok = False
            for k in range(max(j, 0), len(st["trail"])):
                if self.same(t, st["trail"][k]) is None:
                    j, ok = k, True
                    break
            if not ok:
                return "subscriber was shown %r, not one of the states %r" % (
                    t, [x["state"] for x in st["trail"]])
        if len(st["trail"]) != len({i for i in range(len(st["trail"])) if any(
                self.same(t, st["trail"][i]) is None for t in trail)}):
            return "subscriber was shown %r, model went through %r" % (
                [t["state"] for t in trail], [x["state"] for x in st["trail"]])
        run = sorted(tuple(x) for x in st["run"])
        if sorted(self.running) != run:
            return "parts running %r, model %r" % (sorted(self.running), run)
        return None


def run_job(job, params):
    return replay_steps(lambda init: Driver(params["manager"]), job, None)
