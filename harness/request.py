"""Replays behaviours of Request.tla into a real Controller."""
import cothread
from annotypes import Anno, add_call_types
from malcolm.core import (Context, Controller, Error, Get, NumberMeta, Part, Post, Process, Put, Queue,
                          Return, Subscribe, Unsubscribe)
from common import replay_steps, settle
from notify import plain

with Anno("v"):
    AV = int
with Anno("ctx"):
    AC = Context
with Anno("r"):
    AR = int


class Boom(Exception):
    pass


class P(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.rw = NumberMeta("int32", "rw").create_attribute_model(0)
        registrar.add_attribute_model("rw", self.rw, self.rw.set_value)
        self.slow = NumberMeta("int32", "slow").create_attribute_model(0)
        registrar.add_attribute_model("slow", self.slow, self.put_slow)
        self.calc = NumberMeta("int32", "calc").create_attribute_model(0)
        registrar.add_attribute_model("calc", self.calc, lambda v: int(v) + 10)
        self.adj = NumberMeta("int32", "adj").create_attribute_model(0)
        registrar.add_attribute_model("adj", self.adj, self.put_adj)
        self.ro = NumberMeta("int32", "ro").create_attribute_model(7)
        registrar.add_attribute_model("ro", self.ro)
        for f in (self.quick, self.none, self.bad, self.slowm, self.wret):
            registrar.add_method_model(f)
        registrar.add_method_model(self.nest, needs_context=True)
        m = registrar.add_method_model(self.rom)
        self.rom_model = m
        self.gates = []
        self.calls = []

    def gate(self, what):
        q = Queue()
        self.gates.append((what, q))
        ok = q.get()
        if not ok:
            raise Boom("told to fail")

    def put_slow(self, v):
        self.gate(("put.slow", int(v)))
        self.slow.set_value(v)

    def put_adj(self, v):
        self.adj.set_value(int(v) + 50)

    @add_call_types
    def quick(self, v: AV) -> AR:
        return v + 20

    @add_call_types
    def none(self, v: AV) -> None:
        pass

    @add_call_types
    def bad(self, v: AV) -> None:
        raise Boom("told to fail")

    @add_call_types
    def slowm(self, v: AV) -> AR:
        self.gate(("post.slowm", v))
        return v + 40

    @add_call_types
    def nest(self, context: AC, v: AV) -> AR:
        b = context.block_view("mri")
        b.rw.put_value(v, timeout=2)
        assert context.block_view("mri").rw.value == v
        return v + 30

    @add_call_types
    def wret(self, v: AV) -> AR:
        return "not a number"

    @add_call_types
    def rom(self, v: AV) -> AR:
        self.calls.append("rom")
        return v


class Driver:
    def __init__(self, init):
        self.process = Process("p")
        self.c = Controller("mri")
        self.part = P("part")
        self.c.add_part(self.part)
        self.process.add_controller(self.c)
        self.process.start()
        self.part.rom_model.meta.set_writeable(False)
        self.resp = {}
        self.nid = -1
        self.ids = {}
        self.gate_of = {}

    def close(self):
        for _, q in self.part.gates:
            q.put(False)
        settle()
        self.process.stop(timeout=5)

    def make(self, c, q):
        self.nid += 1
        # its own number, or one that others use as well
        i = self.nid if self.nid % 2 else self.nid % 3
        self.ids[c] = i
        r, v, get = q["r"], q["v"], q["get"]
        kind, _, tgt = r.partition(".")
        if kind == "get":
            path = {"block": [], "rw": ["rw"], "rw.value": ["rw", "value"], "sv.value": ["slow", "value"],
                    "ro.value": ["ro", "value"], "method": ["quick"], "meta.label": ["meta", "label"],
                    "missing": ["nope"], "rw.missing": ["rw", "nope"],
                    "rw.value.deeper": ["rw", "value", "x"], "missing.value": ["nope", "value"]}[tgt]
            req = Get(i, ["mri"] + path)
        elif kind == "put":
            path = {"rw": ["rw"], "rw.value": ["rw", "value"], "calc": ["calc", "value"], "adj": ["adj", "value"], "ro": ["ro", "value"],
                    "missing": ["nope", "value"], "method": ["quick", "value"], "block": [],
                    "badvalue": ["rw", "value"], "slow": ["slow", "value"]}[tgt]
            req = Put(i, ["mri"] + path, "rubbish" if tgt == "badvalue" else v, get=get)
        elif kind == "post":
            name = {"missing": "nope", "attr": "rw", "badparam": "quick", "missingparam": "quick",
                    "extraparam": "quick"}.get(tgt, tgt)
            params = {"badparam": {"v": "rubbish"}, "missingparam": {}, "extraparam": {"v": v, "z": 1}}.get(
                tgt, {"v": v})
            req = Post(i, ["mri"] if tgt == "block" else ["mri", name], params)
        else:
            req = Unsubscribe(i)
        req.set_callback(lambda x, c=c: self.resp.setdefault(c, []).append(x))
        return req

    def send(self, c, q):
        before = len(self.part.gates)
        req = self.make(c, q)
        self.c.handle_request(req)
        return before

    def step(self, act):
        self.resp = {}
        if act["n"] == "send":
            before = self.send(act["c"], act["q"])
            settle(20)
            if len(self.part.gates) > before:
                self.gate_of[act["c"]] = self.part.gates[before]
        elif act["n"] == "both":
            self.send(act["c"], act["q"])
            self.send(act["d"], dict(r="put.rw", v=act["v"], get=True))
            settle(20)
        elif act["n"] == "finish":
            g = self.gate_of.pop(act["c"])
            self.part.gates.remove(g)
            g[1].put(act["ok"])
            settle(20)

    def get(self, path):
        o = []
        g = Get(1, path)
        g.set_callback(o.append)
        self.c.handle_request(g)
        settle(3)
        if len(o) != 1 or not isinstance(o[0], Return):
            raise AssertionError("block no longer answers a plain get: %r" % o)
        return o[0].value

    def check(self, st):
        for c, o in enumerate(st["out"], 1):
            rs = self.resp.get(c, [])
            k, v = o["k"], o["v"]
            if k == "none":
                if rs:
                    return "client %d: unexpected response %r" % (c, rs)
                continue
            if len(rs) != 1:
                return "client %d: expected one response, got %d %r" % (c, len(rs), rs)
            r = rs[0]
            if r.id != self.ids[c]:
                return "client %d: response id %r to request %r" % (c, r.id, self.ids[c])
            if k == "err":
                if not isinstance(r, Error) or not isinstance(r.message, Exception):
                    return "client %d: expected an Error, got %r" % (c, r)
                if v == 1 and not isinstance(r.message, Boom):
                    return "client %d: error %r is not the function's own" % (c, r.message)
                continue
            if not isinstance(r, Return):
                return "client %d: expected a Return, got %r %s" % (c, r, getattr(r, "message", ""))
            if k == "void" and r.value is not None:
                return "client %d: expected no value, got %r" % (c, r.value)
            if k == "ret":
                if v == 99:
                    if r.value != "mri":
                        return "label %r" % r.value
                elif r.value is None or int(r.value) != v:
                    return "client %d: returned %r instead of %d" % (c, r.value, v)
            if k == "struct" and not hasattr(r.value, "keys"):
                return "client %d: not a structure: %r" % (c, r.value)
            if k == "struct":
                d = plain(r.value)
                if "rw" in d and d["rw"]["value"] != st["rw"]:
                    return "structure is stale: %r" % d["rw"]
        if int(self.get(["mri", "rw", "value"])) != st["rw"]:
            return "rw is %r, model %r" % (self.get(["mri", "rw", "value"]), st["rw"])
        if int(self.get(["mri", "slow", "value"])) != st["sv"]:
            return "slow is %r, model %r" % (self.get(["mri", "slow", "value"]), st["sv"])
        if self.part.calls:
            return "a read-only method was called"
        for c, p in enumerate(st["pend"], 1):
            if (p["r"] != "idle") != (c in self.gate_of):
                return "client %d: request %s in progress: %r" % (c, p["r"], c in self.gate_of)
        self.resp = {}
        return None

    def after_check(self):
        pass


def run_job(job, params):
    return replay_steps(Driver, job, dict(out=[], rw=0, sv=0, pend=[]))
