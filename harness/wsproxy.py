"""Replays behaviours of WsProxy.tla: a block and its websocket server in one process, WebsocketClientComms and
ProxyController in another, joined by queues in place of the network. Tornado's loop is stepped by the test."""
import asyncio, json
from unittest import mock
import cothread
from annotypes import Anno, Array, add_call_types, json_encode
import tornado.websocket
from tornado.websocket import WebSocketClosedError
from malcolm.core import (Alarm, BooleanMeta, ChoiceMeta, Controller, Error, MethodModel, NumberArrayMeta, NumberMeta, Part, Post, Process,
                          Put, Queue, Return, StringMeta, Table, TableMeta)
from malcolm.modules.builtin.controllers import BasicController, ProxyController
from malcolm.modules.web.controllers import HTTPServerComms, WebsocketClientComms, websocketclientcomms
from malcolm.modules.web.parts import WebsocketServerPart
from malcolm.modules.web import util as web_util
from common import replay_steps, settle
from wsserver import Conn

with Anno("v"):
    AV = int
with Anno("r"):
    AR = int
with Anno("tok"):
    ATok = int
with Anno("a"):
    ACol = Array[str]
with Anno("b"):
    BCol = Array[int]


class Tab(Table):
    def __init__(self, a: ACol, b: BCol) -> None:
        self.a = a
        self.b = b


class TLoop:
    """what is called in tornado's thread, run by one cothread on an asyncio loop of its own"""
    def __init__(self):
        self.aio = asyncio.new_event_loop()
        asyncio.set_event_loop(self.aio)
        self.problems = []
        self.aio.set_exception_handler(lambda l, c: self.problems.append(str(c.get("exception") or c.get("message"))))
        self.ev = cothread.EventQueue()
        self.t = cothread.Spawn(self.run)

    def call(self, func, *args, **kwargs):
        self.ev.Signal((func, args, kwargs))

    def run(self):
        while True:
            x = self.ev.Wait()
            if x is None:
                return
            try:
                r = x[0](*x[1], **x[2])
                self.turn()
                if isinstance(r, asyncio.Future) and r.done() and r.exception():
                    raise r.exception()
            except Exception as e:
                self.problems.append("%s: %s" % (type(e).__name__, e))

    def turn(self):
        for _ in range(6):
            self.aio.call_soon(self.aio.stop)
            self.aio.run_forever()

    def stop(self):
        self.ev.Signal(None)
        settle(2)
        self.aio.close()


class P(Part):
    def prep(self):
        self.gates = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)

        def attr(name, meta, value, put=True):
            m = meta.create_attribute_model(value)
            setattr(self, name, m)
            registrar.add_attribute_model(name, m, m.set_value if put else None)
        attr("x", NumberMeta("int32", "x"), 0)
        attr("s", StringMeta("s"), "", False)
        attr("e", ChoiceMeta("e", ["a", "b"]), "a")
        attr("arr", NumberArrayMeta("float64", "arr"), [])
        attr("t", TableMeta.from_table(Tab, "t"), Tab(a=[], b=[]))
        self.bad = NumberMeta("int32", "bad").create_attribute_model(0)
        registrar.add_attribute_model("bad", self.bad, self.refuse)
        registrar.add_method_model(self.echo)
        registrar.add_method_model(self.fail)
        registrar.add_method_model(self.hold)

    def refuse(self, v):
        raise ValueError("told to fail")

    @add_call_types
    def echo(self, v: AV) -> AR:
        return v

    @add_call_types
    def fail(self, v: AV) -> AR:
        raise RuntimeError("told to fail")

    @add_call_types
    def hold(self, v: AV, tok: ATok) -> AR:
        q = self.gates[tok] = Queue()
        if not q.get():
            raise RuntimeError("told to fail")
        return v


class Pipe:
    """the client's end of a connection; the other is a handler of the server"""
    def __init__(self, drv):
        self.drv = drv
        self.c2s, self.s2c, self.waiting = [], [], None
        self.ready = []
        self.closed = False
        self.srv = Conn(drv.info, "127.0.0.1", [], "c")
        self.srv.h.write_message = self.server_write

    def server_write(self, m, binary=False):
        if self.closed:
            raise WebSocketClosedError()
        self.s2c.append(m)

    def write_message(self, m, binary=False):
        if self.closed:
            raise WebSocketClosedError()
        self.c2s.append(m)

    def read_message(self, callback=None):
        f = asyncio.Future(loop=self.drv.loop.aio)
        if self.ready:
            f.set_result(self.ready.pop(0))
        elif self.closed:
            f.set_result(None)
        else:
            self.waiting = f
        return f

    def give(self, m):
        if self.waiting:
            f, self.waiting = self.waiting, None
            f.set_result(m)
        elif m is not None:
            self.ready.append(m)

    def close(self, code=None, reason=None):
        if not self.closed:
            self.closed = True
            self.srv.closed = True
            self.srv.h.on_close()
            self.give(None)


def plain(block):
    d = json.loads(json_encode(block.to_dict()))
    return d


class Driver:
    def __init__(self, init):
        self.loop = TLoop()
        self.pipe = None
        self.patches = [mock.patch.object(web_util.IOLoopHelper, "call", self.call),
                        mock.patch.object(tornado.websocket, "websocket_connect", self.connect)]
        if hasattr(websocketclientcomms, "websocket_connect"):
            self.patches.append(mock.patch.object(websocketclientcomms, "websocket_connect", self.connect))
        for p in self.patches:
            p.start()
        self.sp = Process("server")
        self.c = BasicController("blk")
        self.part = P("part").prep()
        self.c.add_part(self.part)
        self.sp.add_controller(self.c)
        self.server = HTTPServerComms("web", 0)
        part = WebsocketServerPart("ws", subnet_validation=False)
        self.server.add_part(part)
        self.sp.add_controller(self.server)
        self.sp.start()
        self.info = part.on_report_handlers()
        self.cp = Process("client")
        self.comms = WebsocketClientComms("comms", connect_timeout=5)
        self.proxy = ProxyController("blk", "comms")
        self.cp.add_controller(self.comms)
        self.cp.add_controller(self.proxy)
        self.flow = True
        self.pumper = cothread.Spawn(self.pump)
        self.cp.start(timeout=10)
        settle(40)
        self.flow = False
        self.versions = [plain(self.c._block)]
        self.toks = {}
        self.res = []
        self.open = set()
        self.n = 0
        self.nd = 0
        self.blocks = 0

    def pump(self):
        while self.flow:
            p = self.pipe
            if p:
                if p.c2s:
                    self.loop.call(p.srv.h.on_message, p.c2s.pop(0))
                if p.s2c:
                    self.loop.call(p.give, p.s2c.pop(0))
            cothread.Sleep(0.0005)

    def call(self, func, *args, **kwargs):
        if type(getattr(func, "__self__", None)).__name__ == "HTTPServer":
            return
        self.loop.call(func, *args, **kwargs)

    def connect(self, url, *a, **k):
        f = asyncio.Future(loop=self.loop.aio)

        def connected():
            # takes a while
            cothread.Sleep(0.003)
            self.pipe = Pipe(self)
            self.loop.call(f.set_result, self.pipe)
        cothread.Spawn(connected)
        return f

    def close(self):
        try:
            for q in self.part.gates.values():
                q.put(True)
            settle()
            if self.pipe:
                self.pipe.c2s, self.pipe.s2c = [], []
                self.loop.call(self.pipe.close)
            settle()
            self.cp.stop(timeout=2)
            self.sp.stop(timeout=2)
        finally:
            self.flow = False
            settle(2)
            self.loop.stop()
            for p in reversed(self.patches):
                p.stop()

    def change(self, k, act):
        self.n += 1
        p, n = self.part, self.n
        if k == "x":
            p.x.set_value(act["x"])
        elif k == "d":
            if act["d"]:
                self.add_d()
            else:
                self.c._block.remove_endpoint("d")
        elif k == "r":
            if "d" in self.c._block.call_types:
                self.add_d()
            else:
                p.s.set_value("r%d" % n)
        elif k == "s":
            p.s.set_value("s%d" % n)
        elif k == "alarm":
            p.x.set_alarm([Alarm.ok, Alarm.major("m%d" % n), Alarm.invalid("n")][n % 3])
        elif k == "lab":
            p.x.meta.set_label("label %d" % n)
        elif k == "wr":
            p.e.meta.set_writeable(not p.e.meta.writeable)
        elif k == "cho":
            p.e.meta.set_choices(["a", "b", "c%d" % n])
        elif k == "tab":
            p.t.set_value(Tab(a=["r%d" % n], b=[n]))
        elif k == "col":
            v = p.t.value
            p.t.set_value(Tab(a=v.a, b=[n + i for i in range(len(v.a))] if n % 2 or not len(v.a) else v.b))
        elif k == "arr":
            p.arr.set_value([n, n + 0.5])
        elif k == "blab":
            self.c._block.meta.set_label("block %d" % n)
        elif k == "btag":
            self.c._block.meta.set_tags(["tag%d" % n])
        elif k == "health":
            self.c.health.set_value("h%d" % n, alarm=Alarm.major("h%d" % n))
        elif k == "elem":
            p.t.meta.elements["b"].set_label("col %d" % n)
        elif k == "elems":
            m = TableMeta.from_table(Tab, "t")
            m.elements["a"].set_description("elems %d" % n)
            p.t.meta.set_elements(m.elements)
        elif k == "mdesc":
            self.c._block["echo"].meta.set_description("echoes %d" % n)

    def add_d(self):
        self.nd += 1
        if self.nd % 3 == 0:
            a = StringMeta("d%d" % self.nd).create_attribute_model("v%d" % self.nd)
        else:
            a = NumberMeta("int32", "d%d" % self.nd).create_attribute_model(self.nd)
        self.c.add_block_field("d", a, a.set_value, False)

    def make_call(self, i, req):
        def cb(r):
            if isinstance(r, Return):
                self.res.append([i, dict(ok=True, v=r.value or 0)])
            elif isinstance(r, Error):
                self.res.append([i, dict(ok=False, v=0)])
            else:
                self.res.append([i, repr(r)])
            self.open.discard(i)
        req.set_callback(cb)
        self.open.add(i)
        self.proxy.handle_request(req)

    def step(self, act):
        n = act["n"]
        self.res = []
        if n == "change":
            with self.c.changes_squashed:
                for k in sorted(act["ks"], key=lambda z: (z != "d", z)):
                    self.change(k, act)
        elif n == "call":
            op, v, i = act["op"], act["v"], act["i"]
            if op in ("put", "putd", "putbad"):
                f = {"put": "x", "putd": "d", "putbad": "bad"}[op]
                self.make_call(i, Put(id=i, path=["blk", f, "value"], value=str(v) if f == "d" else v))
            else:
                ps = dict(v=v)
                if op == "hold":
                    ps["tok"] = i
                self.make_call(i, Post(id=i, path=["blk", op], parameters=ps))
        elif n == "serve":
            if self.pipe.c2s:
                self.loop.call(self.pipe.srv.h.on_message, self.pipe.c2s.pop(0))
        elif n == "finish":
            q = self.part.gates.pop(act["i"], None)
            if q:
                q.put(act["ok"])
        elif n == "deliver":
            for _ in range(act["k"]):
                if self.pipe.s2c:
                    self.loop.call(self.pipe.give, self.pipe.s2c.pop(0))
        elif n == "drop":
            self.pipe.c2s, self.pipe.s2c = [], []
            self.loop.call(self.pipe.close)
        elif n == "disable":
            if self.pipe:
                self.pipe.c2s, self.pipe.s2c = [], []
            self.flow = True
            cothread.Spawn(self.pump)
            self.comms.handle_request(Post(id=1, path=["comms", "disable"])).wait(5)
            settle(20)
            self.flow = False
            cothread.Sleep(0.002)
        elif n == "reset":
            # the new connection asks for the list of blocks: it has one more by now
            self.blocks += 1
            self.sp.add_controller(BasicController("extra%d" % self.blocks))
            self.flow = True
            cothread.Spawn(self.pump)
            self.comms.handle_request(Post(id=1, path=["comms", "reset"])).wait(5)
            cothread.Sleep(0.01)
            settle(20)
            self.flow = False
            cothread.Sleep(0.002)
        settle(40)

    def check(self, st):
        if st is None:
            return None
        while len(self.versions) <= st["ver"]:
            self.versions.append(plain(self.c._block))
        if plain(self.c._block) != self.versions[st["ver"]]:
            return "the block changed"
        got, want = plain(self.proxy._block), self.versions[st["pver"]]
        if got != want:
            return "proxy differs from version %d of the block (now %d): %s" % (st["pver"], st["ver"], diff(got, want))
        if int(self.part.x.value) != st["x"] or int(self.proxy._block["x"].value) != st["px"]:
            return "x is %r, shown by the proxy %r, model %r %r" % (self.part.x.value, self.proxy._block["x"].value, st["x"], st["px"])
        if ("d" in self.c._block.call_types, "d" in self.proxy._block.call_types) != (st["d"], st["pd"]):
            return "presence of d differs"
        key = lambda r: str(r)
        if sorted(self.res, key=key) != sorted(st["res"], key=key):
            return "calls ended %r, model %r" % (self.res, st["res"])
        if self.open != set(st["open"]):
            return "calls in progress %r, model %r" % (self.open, st["open"])
        s = self.comms.state.value
        if s != dict(down="Fault", off="Disabled").get(st["up"], "Ready"):
            return "the connection is %s and the client's state %s" % (st["up"], s)
        if st["up"] == "re":
            known = [b for b in self.comms.remote_blocks.value.rows()] if self.comms.remote_blocks.value else []
            known = [str(b[0]) for b in known]
            if "blk" not in known or "extra%d" % self.blocks not in known:
                return "connected again, but the blocks of the server are shown as %r" % known
        return None


def diff(a, b, path=()):
    if type(a) == type(b) == dict:
        for k in sorted(set(a) | set(b)):
            if a.get(k, None) != b.get(k, None):
                return diff(a.get(k, "absent"), b.get(k, "absent"), path + (k,))
    return "%s: %.150r, should be %.150r" % (".".join(path), a, b)


def run_job(job, params):
    return replay_steps(Driver, job, None)
