"""Replays behaviours of WsServer.tla into the websocket handler, HTTPServerComms and real blocks. The network is
stood in for: connections are handler objects as tornado makes them, and what they write is recorded."""
import io, json, os, struct, socket
from unittest import mock
import cothread
from annotypes import Anno, add_call_types
from tornado.websocket import WebSocketClosedError
from malcolm.core import Controller, NumberMeta, Part, Process, Queue
from malcolm.modules.web.controllers import HTTPServerComms
from malcolm.modules.web.parts import WebsocketServerPart
from malcolm.modules.web import util as web_util
from common import replay_steps, settle

with Anno("v"):
    AV = int
with Anno("r"):
    AR = int
with Anno("tok"):
    ATok = int


class Loop:
    """stands in for tornado's thread: runs what it is given, in order, when it gets to it"""
    def __init__(self):
        self.q = cothread.EventQueue()
        self.problems = []
        self.t = cothread.Spawn(self.run)

    def call(self, func, *args, **kwargs):
        self.q.Signal((func, args, kwargs))

    def run(self):
        while True:
            x = self.q.Wait()
            if x is None:
                return
            try:
                x[0](*x[1], **x[2])
            except Exception as e:
                self.problems.append("%s: %s" % (type(e).__name__, e))

    def stop(self):
        self.q.Signal(None)


NETS = {"eth0": ("10.1.2.3", "255.255.0.0", "up\n"), "eth1": ("192.168.5.130", "255.255.255.192", "unknown\n"),
        "lo": ("127.0.0.1", "255.0.0.0", "unknown\n"), "eth2": ("172.16.0.1", "255.255.0.0", "down\n"),
        "can0": None}


def ioctl(fd, sig, packed):
    n = bytes(packed).split(b"\0")[0].decode()
    if NETS[n] is None:
        raise OSError("no address")
    a, m, _ = NETS[n]
    return bytes(20) + socket.inet_aton({0x8915: a, 0x891B: m}[sig]) + bytes(232)


real_open, real_listdir = open, os.listdir


def fake_open(p, *a, **k):
    if str(p).startswith("/sys/class/net/"):
        return io.StringIO(NETS[str(p).split("/")[4]][2] if NETS[str(p).split("/")[4]] else "up\n")
    return real_open(p, *a, **k)


def fake_listdir(p="."):
    return list(NETS) if str(p).rstrip("/") == "/sys/class/net" else real_listdir(p)


class P(Part):
    def prep(self):
        self.gates = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.x = NumberMeta("int32", "x").create_attribute_model(1)
        registrar.add_attribute_model("x", self.x, self.x.set_value)
        self.ro = NumberMeta("int32", "ro").create_attribute_model(7)
        registrar.add_attribute_model("ro", self.ro)
        for f in (self.quick, self.fail, self.hold):
            registrar.add_method_model(f)

    @add_call_types
    def quick(self, v: AV) -> AR:
        return v + 100

    @add_call_types
    def fail(self, v: AV) -> AR:
        raise RuntimeError("told to fail")

    @add_call_types
    def hold(self, v: AV, tok: ATok) -> AR:
        q = self.gates[tok] = Queue()
        if not q.get():
            raise RuntimeError("told to fail")
        return v


class Conn:
    def __init__(self, info, addr, out, name):
        self.h = info.request_class.__new__(info.request_class)
        self.h.request = mock.Mock()
        self.h.request.remote_ip = addr
        self.closed = False
        self.late = {}
        self.h.write_message = self.write
        self.h.initialize(**info.kwargs)
        self.h.open()
        self.out, self.name = out, name

    def write(self, message, binary=False):
        if self.closed:
            d = json.loads(message)
            if d["typeid"].split("/")[1][:5] in ("Updat", "Delta"):
                self.late[d["id"]] = self.late.get(d["id"], 0) + 1
            raise WebSocketClosedError()
        self.out.append((self.name, json.loads(message)))


class Driver:
    def __init__(self, validate):
        self.loop = Loop()
        self.patches = [mock.patch.object(web_util.IOLoopHelper, "call", self.call),
                        mock.patch("fcntl.ioctl", ioctl), mock.patch("os.listdir", fake_listdir),
                        mock.patch("builtins.open", fake_open)]
        for p in self.patches:
            p.start()
        self.process = Process("p")
        self.parts = {}
        for b in ("b1", "b2"):
            c = Controller(b)
            self.parts[b] = P("part").prep()
            c.add_part(self.parts[b])
            self.process.add_controller(c)
        self.server = HTTPServerComms("server", 0)
        part = WebsocketServerPart("ws", subnet_validation=validate)
        self.server.add_part(part)
        self.process.add_controller(self.server)
        self.process.start()
        self.info = part.on_report_handlers()
        self.conns, self.dead = {}, []
        self.out = []
        self.last = {}
        settle()

    def call(self, func, *args, **kwargs):
        if type(getattr(func, "__self__", None)).__name__ == "HTTPServer":
            return   # nothing listens
        self.loop.call(func, *args, **kwargs)

    def close(self):
        try:
            for p in self.parts.values():
                for q in p.gates.values():
                    q.put(True)
            settle()
            self.process.stop(timeout=2)
        finally:
            self.loop.stop()
            for p in reversed(self.patches):
                p.stop()

    def message(self, x):
        m = x["m"]
        k, i, b = m["k"], m["id"], m["b"]
        T = "malcolm:core/%s:1.0"
        d = dict(typeid=None, id=i)
        if k == "notjson":
            return "{nonsense"
        if k == "notdict":
            return "[1, 2]"
        if k == "noid":
            return json.dumps(dict(typeid=T % "Get", path=[b]))
        if k == "badtype":
            return json.dumps(dict(typeid="malcolm:core/Nothing:1.0", id=i, path=[b, "x"]))
        if k == "nopath":
            return json.dumps(dict(typeid=T % ("Subscribe" if m["d"] else "Get"), id=i))
        if k == "emptypath":
            return json.dumps(dict(typeid=T % ("Subscribe" if m["d"] else "Get"), id=i, path=[]))
        if k == "dot":
            d.update(typeid=T % "Get", path=[".", "state", "value"])
        elif k in ("get", "get.bad"):
            d.update(typeid=T % "Get", path=[b, "x" if k == "get" else "nothing", "value"])
        elif k.startswith("put"):
            d.update(typeid=T % "Put", path=[b, "x", "value"], value=m["v"], get=m["d"])
            if k == "put.ro":
                d["path"] = [b, "ro", "value"]
            elif k == "put.short":
                d["path"] = [b]
            elif k == "put.val":
                d["value"] = "not a number"
        elif k.startswith("post") or k == "hold":
            d.update(typeid=T % "Post", path=[b, "quick"], parameters=dict(v=m["v"]))
            if k == "post.bad":
                d["path"] = [b, "nothing"]
            elif k == "post.param":
                d["parameters"] = dict(w=1)
            elif k == "post.fail":
                d["path"] = [b, "fail"]
            elif k == "hold":
                d["path"] = [b, "hold"]
                d["parameters"]["tok"] = x["g"]
        elif k == "sub":
            d.update(typeid=T % "Subscribe", path=[b, "x", "value"] if m["p"] == "xv" else [b, "x"], delta=m["d"])
        elif k == "unsub":
            d.update(typeid=T % "Unsubscribe")
        return json.dumps(d)

    def step(self, act):
        n = act["n"]
        self.out[:] = []
        if n == "connect":
            self.conns[act["c"]] = Conn(self.info, act["a"], self.out, act["c"])
        elif n == "close":
            c = self.conns.pop(act["c"])
            c.closed = True
            self.dead.append(c)
            self.loop.call(c.h.on_close)
        elif n == "send":
            for x in act["xs"]:
                self.loop.call(self.conns[x["c"]].h.on_message, self.message(x))
        elif n == "set":
            self.parts[act["b"]].x.set_value(act["v"])
        elif n == "finish":
            for p in self.parts.values():
                q = p.gates.pop(act["g"], None)
                if q:
                    q.put(act["ok"])
        settle(40)

    def check(self, st):
        if st is None:
            return None
        got = []
        for c, d in self.out:
            k = {"Return": "ret", "Error": "err", "Update": "upd", "Delta": "delta"}[d["typeid"].split("/")[1][:-4]]
            v = 0
            if k == "ret":
                v = d.get("value", 0) or 0
                v = 77 if v == "Ready" else v
            elif k == "err":
                if not isinstance(d.get("message"), str):
                    return "error without a message: %r" % (d,)
            elif k == "upd":
                v = d["value"]
                v = v["value"] if isinstance(v, dict) else v
            else:
                v = self.last.get((c, d["id"]))
                for ch in d["changes"]:
                    if ch[0] == []:
                        v = ch[1]["value"] if isinstance(ch[1], dict) else ch[1]
                    elif ch[0] == ["value"]:
                        v = ch[1]
            self.last[c, d["id"]] = v
            got.append((c, d["id"], k, v))
        want = [(r["c"], -1 if r["id"] == 0 else r["id"], r["k"], r["v"]) for r in st["out"]]
        key = lambda r: tuple(str(z) for z in r)
        if sorted(got, key=key) != sorted(want, key=key):
            return "responses %r, model %r" % (sorted(got, key=key), sorted(want, key=key))
        for c in self.dead:
            if max(c.late.values(), default=0) > 1:
                return "a subscription of a closed connection is still served: %r" % (c.late,)
        if self.loop.problems:
            return "handler raised %s" % self.loop.problems[0]
        for b, p in self.parts.items():
            if int(p.x.value) != st["vals"][b]:
                return "%s.x is %r, model %r" % (b, p.x.value, st["vals"][b])
        return None


def run_job(job, params):
    return replay_steps(lambda init: Driver(params.get("validate", True)), job, None)
