"""Replays behaviours of Process.tla into a real Process hosting plain and stateful controllers."""
import cothread
from annotypes import add_call_types
from malcolm.core import APublished, Controller, Part, Process, ProcessPublishHook, ProcessStartHook, ProcessStopHook, UnpublishedInfo
from malcolm.core.concurrency import sleep
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import HaltHook, InitHook
from common import replay_steps, settle


class Kid(Part):
    """What a ChildPart looks like to a process"""
    mri = None


class Mix:
    d = c = None

    def prep(self, d, c):
        self.d, self.c = d, c
        r = d.cfg.get(c, dict(kids=[], out="ok", unpub=False, adds=False))
        self.r = r
        self.begun = self.started = self.halted = 0
        self.seen = []
        kids = list(r["kids"]) + ([c + 10] if r["adds"] else [])
        d.n += 1
        if d.n % 2:
            kids.reverse()
        for k in kids:
            p = Kid("kid%d" % k)
            p.mri = mri(k)
            self.add_part(p)
        if d.n % 3 == 0:
            p = Kid("elsewhere")
            p.mri = "not:here"
            self.add_part(p)
        self.register_hooked(ProcessPublishHook, self.publish)
        return self

    def on_start(self):
        self.begun += 1
        if self.r["adds"] and self.c not in self.d.slow:
            self.d.make_helper(self.c)
        if self.c in self.d.slow:
            if self.r["adds"]:
                self.d.make_helper(self.c)
            self.d.slow[self.c].Wait()
        for _ in range(self.c % 4):
            cothread.Yield()
        self.started += 1
        if self.r["out"] == "startfail":
            raise ValueError("cannot start %s" % self.c)

    def on_halt(self):
        if self.d.n % 2:
            self.process.spawn(self.d.lag, 2 * self.c)
        cothread.Yield()
        self.halted += 1
        if self.r["out"] == "stopfail":
            raise ValueError("cannot stop %s" % self.c)

    @add_call_types
    def publish(self, published: APublished) -> None:
        self.seen.append(list(published))
        if self.c in self.d.slowpub:
            self.d.slowpub[self.c].Wait()
        if self.r["out"] == "pubfail":
            raise ValueError("cannot publish %s" % self.c)

    def unpub(self):
        if self.r["unpub"]:
            return UnpublishedInfo(self.mri)


class Plain(Mix, Controller):
    def prep(self, d, c):
        super().prep(d, c)
        self.register_hooked(ProcessStartHook, self.go)
        self.register_hooked(ProcessStopHook, self.on_halt)
        return self

    def go(self):
        self.on_start()
        return self.unpub()


class P(Part):
    owner = None

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(InitHook, self.init)
        registrar.hook(HaltHook, self.halt)

    def init(self):
        self.owner.on_start()

    def halt(self):
        self.owner.on_halt()


class Stateful(Mix, StatefulController):
    def prep(self, d, c):
        p = P("own")
        p.owner = self
        self.add_part(p)
        return super().prep(d, c)

    def init(self):
        super().init()
        return self.unpub()


def mri(c):
    return "b:%d" % c


class Driver:
    def __init__(self, init):
        self.cfg = {}
        self.n = 0
        self.process = Process("p")
        self.cs = {}          # hosted
        self.old = {}
        self.slow, self.slowpub, self.gate = {}, {}, {}
        self.ops = []
        self.left = 0
        self.bad = None

    def close(self):
        for e in list(self.slow.values()) + list(self.slowpub.values()) + list(self.gate.values()):
            e.Signal()
        settle()
        try:
            self.process.stop(timeout=2)
        except Exception:
            pass

    # --- the environment of the process
    def make(self, c):
        k = (Plain, Stateful)[(c + self.n) % 2](mri(c)).prep(self, c)
        self.cs[c] = k
        return k

    def make_helper(self, c):
        u = self.cfg[c]["xunpub"]
        self.cfg[c + 10] = dict(kids=[], out="ok", unpub=u, adds=False)
        self.process.add_controller(self.make(c + 10))
        h = self.cs[c + 10]
        if h.started != 1:
            self.bad = "helper not started when its addition returned"

    def lag(self, n):
        self.left += 1
        for _ in range(n):
            cothread.Yield()
        self.left -= 1

    def quick(self):
        pass

    def job(self, k):
        self.left += 1
        self.gate.setdefault("job", cothread.Event(auto_reset=False)).Wait()
        if k == "many":
            for _ in range(1200):
                self.process.spawn(self.quick)
                if _ % 100 == 0:
                    cothread.Yield()
            self.process.spawn(self.lag, 40)
        elif k == "nested":
            self.process.spawn(self.nest, 3)
        for _ in range(3):
            cothread.Yield()
        self.left -= 1

    def nest(self, n):
        self.left += 1
        if n:
            self.process.spawn(self.nest, n - 1)
        for _ in range(5):
            cothread.Yield()
        self.left -= 1

    def call(self, f, *a, **kw):
        op = dict(done=False, err=None, left=None)

        def go():
            try:
                f(*a, **kw)
            except Exception as e:
                op["err"] = e
            op["left"] = self.left
            op["done"] = True
        self.ops.append(op)
        cothread.Spawn(go, stack_size=256 * 1024)
        settle(60)
        return op

    def add(self, cs):
        new = [self.make(c) for c in cs]

        def go():
            if len(new) == 1 and self.n % 2:
                self.process.add_controller(new[0])
            else:
                self.process.add_controllers(new)
            # started before the addition returns
            if self.process.state != 0 and [k.mri for k in new if k.started != 1]:
                raise RuntimeError("addition returned before everything was started")
        self.call(go)

    def step(self, act):
        n = act["n"]
        self.waits = False
        if n == "cfg":
            self.cfg[act["c"]] = act["r"]
        elif n == "add":
            self.add(act["q"])
        elif n == "addslow":
            self.slow = {act["g"]: cothread.Event(auto_reset=False)}
            self.add(act["q"])
        elif n == "start":
            self.call(self.process.start)
        elif n == "startslow":
            self.slow = {act["g"]: cothread.Event(auto_reset=False)}
            self.call(self.process.start)
        elif n == "startpub":
            self.slowpub = {act["g"]: cothread.Event(auto_reset=False)}
            self.call(self.process.start)
        elif n == "stop":
            self.old = self.cs
            self.call(self.process.stop)
            self.cs = {}
        elif n == "stopslow":
            self.old = self.cs
            self.call(self.process.stop)
        elif n == "spawn":
            self.process.spawn(self.job, act["k"])
            if act["k"] == "many":
                # many others come and go meanwhile
                for i in range(1100):
                    self.process.spawn(self.quick)
                    if i % 100 == 0:
                        settle(2)
            settle(5)
        elif n == "release":
            d = dict(start=self.slow, addslow=self.slow, publish=self.slowpub, stop=self.gate)[act["w"]]
            for e in d.values():
                e.Signal()
            d.clear()
            if act["w"] == "stop":
                self.cs = {}
                settle(150)
            settle(60)
        elif n == "refused":
            w = act["w"]
            exc = AssertionError
            if w == "start":
                f, a = self.process.start, ()
            elif w == "stop":
                f, a = self.process.stop, ()
            elif w == "spawn":
                f, a = self.process.spawn, (self.quick,)
            elif w == "dup":
                c = sorted(act["known"])[self.n % len(act["known"])]
                f, a = self.process.add_controller, (Plain(mri(c)).prep(self, c),)
            else:
                exc = ValueError
                f = self.process.get_controller if self.n % 2 else self.process.block_view
                a = ("b:99",)
            self.n += 1
            try:
                f(*a)
            except exc:
                pass
            else:
                self.bad = "%s was not refused" % w

    def check(self, s):
        if not s or "ps" not in s:
            return None
        if self.bad:
            return self.bad
        self.n += 0
        for _ in range(20):
            if s["wait"] != "none" or all(o["done"] for o in self.ops):
                break
            settle(50)
        for o in self.ops:
            if o["done"] and o["err"] is not None:
                return "call failed: %r" % o["err"]
        pend = [o for o in self.ops if not o["done"]]
        if s["wait"] == "none":
            if pend:
                return "a call did not return"
            if s["ps"] == "Stopped" and self.ops and self.ops[-1]["left"] and not s["jobs"]:
                return "stop returned with %d spawned functions running" % self.ops[-1]["left"]
            self.ops = []
        elif not pend:
            return "%s returned too early" % s["wait"]
        if sorted(self.process.mri_list) != sorted(mri(c) for c in s["hosted"]):
            return "mri_list %s" % self.process.mri_list
        if sorted(self.cs) != sorted(s["hosted"]):
            return "controllers %s" % sorted(self.cs)
        for c, k in self.cs.items():
            if self.process.get_controller(mri(c)) is not k:
                return "get_controller(%d) is another" % c
            if k.begun != (1 if c in s["begun"] else 0):
                return "controller %d: start function ran %d times" % (c, k.begun)
            if s["ps"] != "Publishing" and k.started != (1 if c in s["started"] else 0):
                return "controller %d: finished start %d times" % (c, k.started)
            if k.halted != (1 if s["ps"] == "Stopping" else 0):
                return "controller %d halted %d times" % (c, k.halted)
        if s["ps"] == "Stopped":
            for c, k in self.old.items():
                if k.halted != 1:
                    return "controller %d was halted %d times" % (c, k.halted)
        # publications
        want = sorted(mri(c) for c in s["pub"])
        for c in s["must"]:
            k = self.cs[c]
            if not k.seen:
                return "controller %d was not given the publication" % c
            last = k.seen[-1]
            if sorted(last) != want:
                if s["wait"] in ("publish", "addslow") and set(want) <= set(last):
                    # something not known to be unpublished yet, or a later publication
                    continue
                return "published %s, not %s" % (last, want)
            for a, b in s["before"]:
                if last.index(mri(a)) > last.index(mri(b)):
                    return "published %s: parent %s after %s" % (last, a, b)
        return None


def run_job(job, params):
    return replay_steps(lambda i: Driver(i), job, {})
