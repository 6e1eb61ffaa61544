"""Replays behaviours of CaPv.tla into a real block made of CA parts, over a stand-in for the channel access library."""
import time, traceback
import cothread
import numpy as np
from cothread import catools as real
from malcolm.core import Context, Process, tags
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.ca import util
from malcolm.modules.ca.parts import (CAActionPart, CABooleanPart, CACharArrayPart, CAChoicePart, CADoubleArrayPart, CADoublePart,
                                      CALongArrayPart, CALongPart, CAStringPart, CAWaveformTablePart)
from common import replay_steps, settle

LABELS = [["zero", "one", "two"], ["aa", "bb", "cc"]]
RAW = dict(long=[0, 5, -7], double=[0.0, 1.5, -2.25], string=["", "abc", "de"], bool=[0, 1, 1], choice=[0, 1, 2], chars=["", "pq r", "x" * 50],
           cols=[[0.0, 0.0], [1.5, 2.0], [-1.0, 7.25]], longs=[[], [1, 2], [3]], doubles=[[], [1.5], [2.5, -1.0]])
PARTS = dict(long=CALongPart, double=CADoublePart, string=CAStringPart, bool=CABooleanPart, choice=CAChoicePart, chars=CACharArrayPart,
             longs=CALongArrayPart, doubles=CADoubleArrayPart)
OUT = dict(A=1, B=2, C=0, D=7)
IN = dict(A=1, B=3, C=4, D=7)


class I(int):
    pass


class F(float):
    pass


class S(str):
    pass


class N(np.ndarray):
    pass


def augment(kind, v):
    if kind in ("longs", "doubles", "cols"):
        return np.array(v, dtype=np.int32 if kind == "longs" else np.float64).view(N)
    return {int: I, float: F, str: S}[type(v)](v)


class Monitor:
    def __init__(self, ca, name, cb):
        self.ca, self.name, self.cb, self.last, self.count, self.closed = ca, name, cb, None, 0, False
        ca.monitors.append(self)
        if ca.on(name):
            self.emit(ca.value(name, True))

    def emit(self, value):
        # updates that have not been handled yet are merged
        self.last = value
        if self.count == 0:
            self.ca.queue.Signal(self)
        self.count += 1

    def signal(self):
        if self.closed:
            return
        value, self.last, self.count = self.last, None, 0
        try:
            self.cb(value)
        except Exception:
            # as the library does
            self.ca.dead.append("subscription to %s: %s" % (self.name, traceback.format_exc()[-300:]))
            self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.ca.monitors.remove(self)


class FakeCa:
    """what malcolm uses of cothread.catools"""

    def __init__(self, drv):
        self.drv, self.monitors, self.dead, self.busy = drv, [], [], False
        self.queue = cothread.EventQueue()
        self.task = cothread.Spawn(self.work)

    def __getattr__(self, item):
        return getattr(real, item)

    def work(self):
        while True:
            m = self.queue.Wait()
            if m is None:
                return
            self.busy = True
            m.signal()
            self.busy = False

    def idle(self):
        return not self.busy and len(self.queue) == 0

    def on(self, name):
        return self.drv.pv[int(name[1:])]["on"]

    def value(self, name, stamp):
        p = int(name[1:])
        q = self.drv.pv[p]
        if not q["on"]:
            return real.ca_nothing(name, 192)
        v = augment(q["kind"], q["raw"])
        v.name, v.ok, v.severity, v.status = name, True, q["sev"], 0
        if stamp:
            v.raw_stamp = (1000 + q["t"], q["t"])
            v.timestamp = 1000 + q["t"]
        else:
            v.enums = LABELS[self.drv.lab]
            v.upper_disp_limit = v.lower_disp_limit = 0
            v.precision, v.units = 3, "mm"
        return v

    def caget(self, pvs, format=0, datatype=None, throw=True, **kw):
        one = isinstance(pvs, str)
        out = []
        for n in [pvs] if one else list(pvs):
            v = self.value(n, format == real.FORMAT_TIME)
            if not v.ok and throw:
                raise v
            out.append(v)
        return out[0] if one else out

    def caput(self, pvs, values, wait=False, timeout=5, datatype=None, throw=True, **kw):
        self.drv.caput(pvs, values, wait)

    def camonitor(self, pvs, callback, **kw):
        if isinstance(pvs, str):
            return Monitor(self, pvs, callback)
        return [Monitor(self, n, lambda v, i=i: callback(v, i)) for i, n in enumerate(pvs)]


def plain(v):
    v = getattr(v, "seq", v)
    if isinstance(v, np.ndarray) or isinstance(v, np.generic):
        return v.tolist()
    return v if isinstance(v, (int, float, str)) else list(v)


def sev(attr):
    s = attr.alarm.severity
    return int(getattr(s, "value", s))


class Driver:
    def __init__(self, kind):
        self.lab, self.plan, self.puts, self.res, self.open0 = 0, None, [], [], None
        self.pv = {}
        self.kind = dict(kind)
        if self.kind["D"] not in ("long", "double", "string", "bool"):
            self.kind["D"] = "long"
        for a in "ABCD":
            for p in (OUT[a], IN[a]):
                if p:
                    self.pv[p] = dict(kind=self.kind[a])
        for p in (5, 6):
            self.pv[p] = dict(kind="cols")
        for p in (8, 11):
            self.pv[p] = dict(kind="long")
        for p in (9, 10):
            self.pv[p] = dict(kind="string")
        for p, q in self.pv.items():
            q.update(v=0, sev=0, on=True, t=1, raw=RAW[q["kind"]][0])
        self.pv[10]["raw"] = "msg10"
        util.catools = self.ca = FakeCa(self)
        self.proc = Process("p")
        self.c = StatefulController("c")
        for a in "ABCD":
            kw = dict(min_delta=0.003 if a in "BC" else 0.0)
            if OUT[a]:
                kw["pv"] = "P%d" % OUT[a]
            if IN[a] != OUT[a]:
                kw["rbv"] = "P%d" % IN[a]
            if a == "D":
                kw["throw"] = False
            self.c.add_part(PARTS[self.kind[a]](name=a.lower(), description="d", **kw))
        self.c.add_part(CAWaveformTablePart("t", "d", ["P5", "P6"], ["colx", "coly"], min_delta=0.003))
        self.c.add_part(CAActionPart("m", "d", pv="P8", status_pv="P9", good_status="good", status_timeout=0.3, message_pv="P10", value=3))
        self.c.add_part(CAActionPart("h", "d", pv="P11", throw=False))
        self.proc.add_controller(self.c)
        self.proc.start()
        self.quiet()
        self.open0 = len(self.ca.monitors)

    def close(self):
        self.proc.stop(timeout=5)
        self.ca.queue.Signal(None)

    def quiet(self):
        end = time.time() + 5
        settle(10)
        while not self.ca.idle() and time.time() < end:
            cothread.Sleep(0.001)
        settle(10)

    def tell(self, p):
        for m in list(self.ca.monitors):
            if m.name == "P%d" % p:
                m.emit(self.ca.value(m.name, True))

    def become(self, p, v, t, sev=None):
        q = self.pv[p]
        q.update(v=v, t=t, raw=RAW[q["kind"]][v])
        if sev is not None:
            q["sev"] = sev
        if q["on"]:
            self.tell(p)

    def caput(self, name, value, wait):
        p = int(name[1:])
        self.puts.append([p, plain(value), bool(wait)])
        if not self.pv[p]["on"]:
            raise real.ca_nothing(name, 192)
        if p == 8:
            before, after = self.plan
            self.pv[9]["raw"] = before
            if after != "same":
                plan = self.plan

                def later():
                    for _ in range(5):
                        cothread.Yield()
                    for _ in range(300):
                        if any(m.name == "P9" and m.count == 0 for m in self.ca.monitors) and self.ca.idle():
                            break
                        cothread.Sleep(0.0005)
                    if self.plan is not plan:
                        return
                    self.pv[9]["raw"] = after
                    self.tell(9)
                cothread.Spawn(later)
            return
        v, w, fails, t = self.plan
        if fails:
            raise real.ca_nothing(name, 80)
        a = [x for x in "ABCD" if OUT[x] == p][0]
        if OUT[a] != IN[a]:
            self.become(OUT[a], v, t)
        if self.pv[IN[a]]["on"]:
            self.become(IN[a], w, t)

    def meant(self, kind, v, lab):
        if kind == "choice":
            return LABELS[lab][v]
        return bool(RAW[kind][v]) if kind == "bool" else RAW[kind][v]

    def step(self, a):
        n = a["n"]
        self.res, self.puts, self.want = [], [], []
        b = self.c.block_view()
        if n == "change":
            for v in a["vs"]:
                self.become(a["p"], v, a["t"], a["sev"])
        elif n == "drop":
            self.pv[a["p"]]["on"] = False
            self.tell(a["p"])
        elif n == "return":
            self.pv[a["p"]]["on"] = True
            self.tell(a["p"])
        elif n == "relabel":
            self.lab = 1 - self.lab
        elif n == "put":
            k = self.kind[a["a"]]
            self.plan = (a["v"], a["w"], a["fails"], a["t"])
            try:
                self.c.block_view()[a["a"].lower()].put_value(self.meant(k, a["v"], self.known[a["a"]]))
                self.res = ["ok"]
            except Exception:
                self.res = ["error"]
            if a["sent"]:
                self.want = [[OUT[a["a"]], RAW[k][a["v"]], True]]
            # what it shows as the put returns
            self.now = b[a["a"].lower()].value
        elif n == "call":
            self.plan = (a["before"], a["after"])
            try:
                b.m()
                self.res = ["ok", ""]
            except Exception as e:
                last = a["after"] if a["after"] != "same" else a["before"]
                self.res = ["error", last if last in str(e) and "msg10" in str(e) else ""]
            self.plan = None
            self.want = [[8, 3, True]]
        elif n == "disable":
            b.disable()
        elif n == "reset":
            try:
                b.reset()
            except Exception:
                pass
        self.quiet()
        if n == "put" and self.res == ["ok"] and not self.eq(b[a["a"].lower()].value, self.now):
            self.ca.dead.append("%s showed %r as the put returned" % (a["a"], self.now))

    def eq(self, x, y):
        if hasattr(x, "__len__") and not isinstance(x, str):
            return list(x) == list(y)
        return x == y

    def check(self, s):
        out = []
        b = self.c.block_view()
        if self.c.state.value != s["st"]:
            out.append("state %s (%s), model %s" % (self.c.state.value, self.c.state.alarm.message, s["st"]))
        self.known = {a: s["attr"][a]["l"] for a in "ABCD"}
        for a in "ABCD":
            at, m = b[a.lower()], s["attr"][a]
            want = self.meant(self.kind[a], m["v"], m["l"])
            if not self.eq(at.value, want):
                out.append("%s (%s) is %r, model %r" % (a, self.kind[a], at.value, want))
            if sev(at) != m["sev"]:
                out.append("%s: alarm %d, model %d" % (a, sev(at), m["sev"]))
            if m["t"] and int(at.timeStamp.secondsPastEpoch) != 1000 + m["t"]:
                out.append("%s: time stamp %s, model %d" % (a, at.timeStamp.secondsPastEpoch, 1000 + m["t"]))
            if at.meta.writeable != (OUT[a] != 0 and s["st"] != "Disabled"):
                out.append("%s: writeable %s" % (a, at.meta.writeable))
            if self.kind[a] == "choice" and list(at.meta.choices) != LABELS[m["l"]]:
                out.append("%s: choices %s" % (a, list(at.meta.choices)))
        for k, col in enumerate(("colx", "coly")):
            want = RAW["cols"][s["tab"]["v"][k]]
            if list(b.t.value[col]) != want:
                out.append("table column %s is %s, model %s" % (col, list(b.t.value[col]), want))
        if sev(b.t) != s["tab"]["sev"]:
            out.append("table alarm %d, model %d" % (sev(b.t), s["tab"]["sev"]))
        hid = tags.method_hidden() in b.h.meta.tags
        if hid != s["hid"]:
            out.append("method h hidden: %s, model %s" % (hid, s["hid"]))
        if self.open0 is not None:
            if self.res != s["res"]:
                out.append("result %s, model %s" % (self.res, s["res"]))
            if [[p, v, w] for p, v, w in self.puts] != self.want:
                out.append("put %s, expected %s" % (self.puts, self.want))
            n = len(self.ca.monitors)
            if (s["st"] == "Disabled" and n) or (s["st"] == "Ready" and n != self.open0):
                out.append("%d subscriptions open in %s" % (n, s["st"]))
        if self.ca.dead:
            out.append("lost: %s" % self.ca.dead)
        return "; ".join(out) or None


def run_job(job, params):
    d = Driver.__new__(Driver)
    d.res, d.puts, d.want = [], [], []

    def make(i):
        d.__init__(job[0][0]["kind"])
        d.want = []
        return d
    return replay_steps(make, job[1:], job[0][1])
