"""Replays behaviours of Context.tla into a real Context talking to a real Controller. The time is the specification's."""
import time


class Clock:
    """what the time functions tell: the real time, except while a replay sets it (it hardly moves by itself then)"""
    now = None

    @classmethod
    def install(cls):
        def wrap(real):
            def tell():
                if cls.now is None:
                    return real()
                cls.now += 1e-8
                return cls.now
            return tell
        time.time = wrap(time.time)
        time.monotonic = wrap(time.monotonic)


Clock.install()
import cothread
from annotypes import Anno, add_call_types
from malcolm.core import (AbortedError, BadValueError, Context, Controller, NumberMeta, Part, Process, Queue,
                          TimeoutError)
from common import replay_steps, settle

with Anno("k"):
    AK = int
with Anno("r"):
    AR = int


NONE = 99


class Boom(Exception):
    def __init__(self, k):
        super().__init__("op %d failed" % k)
        self.k = k


class P(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.gates = {}
        registrar.add_method_model(self.op)
        self.u = NumberMeta("int32", "u").create_attribute_model(0)
        registrar.add_attribute_model("u", self.u)
        self.a = NumberMeta("int32", "a").create_attribute_model(0)
        registrar.add_attribute_model("a", self.a)

    @add_call_types
    def op(self, k: AK) -> AR:
        q = self.gates.setdefault(k, Queue())
        if not q.get():
            raise Boom(k)
        return k * 10


class Driver:
    def __init__(self, init):
        Clock.now = 1000.0
        self.process = Process("p")
        self.c = Controller("mri")
        self.part = P("part")
        self.c.add_part(self.part)
        self.process.add_controller(self.c)
        self.process.start()
        self.ctx = Context(self.process)
        self.nest = {}
        self.nu = 0
        self.futs = {}
        self.key = {}
        self.nk = 0
        self.nw = 0
        self.res = []
        self.blocked = []
        self.bad = None
        self.ctx.subscribe(["mri", "u", "value"], self.on_update)
        self.ctx.sleep(0)
        self.fl = 0

    def close(self):
        for q in self.part.gates.values():
            q.put(True)
        for _ in range(6):
            self.ctx.stop()
        settle(40)
        Clock.now = None
        self.process.stop(timeout=5)

    # -- waits -----------------------------------------------------------
    def guarded(self, func, fs):
        self.nw += 1
        i = self.nw
        self.blocked.insert(0, i)
        try:
            func()
        except AbortedError:
            o = "aborted"
        except TimeoutError:
            o = "timeout"
        except BadValueError:
            o = "bad"
        except Boom as e:
            o = "err"
            if e.k not in [self.key[f] for f in fs]:
                self.bad = "wait on %r raised the error of another operation: %s" % (fs, e)
        else:
            o = "ok"
        self.blocked.remove(i)
        self.res.append([i, o])

    def limits(self, act):
        kw = {k: act[x] for k, x in (("timeout", "t"), ("event_timeout", "e")) if act[x] != NONE}
        for k in ("timeout", "event_timeout"):
            if k not in kw and (self.nw + len(k)) % 3 == 0:
                kw[k] = None
        return kw

    def wait(self, s, kw):
        fs = [self.futs[f] for f in s]
        self.fl += 1
        if len(fs) == 1 and self.fl % 2:
            fs = fs[0]
        given = list(fs) if isinstance(fs, list) else fs
        self.guarded(lambda: self.ctx.wait_all_futures(fs, **kw), s)
        if isinstance(fs, list) and fs != given:
            self.bad = "wait_all_futures changed the list it was given"

    def on_update(self, value):
        s = self.nest.get(int(value))
        if s:
            self.wait(s, [dict(), dict(timeout=1000), dict(event_timeout=1000)][self.fl % 3])

    def spawn(self, func, *args):
        cothread.Spawn(func, *args)

    # -- actions ---------------------------------------------------------
    def update(self, s):
        self.nu += 1
        self.nest[self.nu] = s
        self.part.u.set_value(self.nu)

    def step(self, act):
        self.res = []
        n = act["n"]
        if n == "post":
            self.nk += 1
            self.key[act["f"]] = self.nk
            self.futs[act["f"]] = self.ctx.post_async(["mri", "op"], {"k": self.nk})
        elif n == "respond":
            self.part.gates[self.key[act["f"]]].put(act["ok"])
        elif n == "burst":
            self.update(act["s"])
            self.part.gates[self.key[act["f"]]].put(act["okf"])
            self.part.gates[self.key[act["g"]]].put(act["okg"])
        elif n == "update":
            self.update(act["s"])
        elif n == "wait":
            self.spawn(self.wait, act["s"], self.limits(act))
        elif n == "sleep":
            self.spawn(self.guarded, lambda: self.ctx.sleep(act["t"]), [])
        elif n == "tick":
            Clock.now += 1
        elif n == "when":
            kw = self.limits(act)
            self.spawn(self.guarded, lambda: self.ctx.when_matches(["mri", "a", "value"], 2, [3], **kw), [])
        elif n == "attr":
            self.part.a.set_value(act["v"])
        elif n == "stop":
            self.ctx.stop()
        elif n == "ignore":
            self.ctx.ignore_stops_before_now()
        settle(20)

    def check(self, st):
        if self.bad:
            return self.bad
        if self.res != st["res"]:
            return "waits finished %r, model %r" % (self.res, st["res"])
        if self.blocked != st["blocked"]:
            return "waits in progress %r, model %r" % (self.blocked, st["blocked"])
        for f, x in enumerate(st["fut"], 1):
            fut = self.futs.get(f)
            if x in ("idle", "out"):
                if fut is not None and fut.done() and x == "out":
                    return "operation %d finished early" % f
            else:
                if not fut.done():
                    return "operation %d not finished, model %s" % (f, x)
                try:
                    r = fut.result(timeout=0)
                except Boom as e:
                    if x != "err" or e.k != self.key[f]:
                        return "operation %d raised %s, model %s" % (f, e, x)
                else:
                    if x != "ok" or r != self.key[f] * 10:
                        return "operation %d returned %r, model %s" % (f, r, x)
        return None


def run_job(job, params):
    return replay_steps(Driver, job, dict(fut=[], res=[], blocked=[]))
