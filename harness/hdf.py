"""Replays behaviours of Hdf.tla into a RunnableController with a real HDFWriterPart and a simulated writer block."""
import os, shutil, tempfile, time as realtime
import cothread
from annotypes import add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.core import (BooleanMeta, Context, NumberMeta, Part, Process, StringMeta)
from malcolm.modules.ADCore.parts import HDFWriterPart, hdfwriterpart
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import AContext
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import PauseHook
import stateful  # noqa: F401
from common import replay_steps, settle

SCALE = 0.02
_wait_all = Context.wait_all_futures


def scaled(self, futures, timeout=None, event_timeout=None):
    return _wait_all(self, futures, timeout=None if timeout is None else timeout * SCALE, event_timeout=event_timeout)


Context.wait_all_futures = scaled


class Clock:
    """stands in for the time module in the part"""
    now = 1e9

    def time(self):
        return self.now
    monotonic = perf_counter = time

    def __getattr__(self, n):
        return getattr(realtime, n)


CLOCK = Clock()
hdfwriterpart.time = CLOCK
DURATION = 0.5

BOOLS = ["positionMode", "enableCallbacks", "swmrMode", "storeAttr", "dimAttDatasets", "lazyOpen", "xmlLayoutValid", "running"]
NUMS = ["numCapture", "numCapturedReadback", "flushDataPerNFrames", "flushAttrPerNFrames", "numExtraDims", "arrayCounter",
        "arrayCounterReadback", "uniqueId"] + ["extraDimSize" + s for s in hdfwriterpart.SUFFIXES[:10]]
STRS = ["fileWriteMode", "xmlLayout", "xmlErrorMsg", "filePath", "fileName", "fileTemplate"] + ["posNameDim" + s for s in hdfwriterpart.SUFFIXES[:10]]


class Writer(Part):
    def prep(self):
        self.at, self.flushes, self.go = {}, 0, None
        self.fail = False
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for names, meta in ((BOOLS, lambda: BooleanMeta("b")), (NUMS, lambda: NumberMeta("int32", "n")), (STRS, lambda: StringMeta("s"))):
            for n in names:
                a = self.at[n] = meta().create_attribute_model()
                registrar.add_attribute_model(n, a, self.zero if n == "arrayCounter" else a.set_value)
        self.at["xmlLayoutValid"].set_value(True)
        registrar.add_method_model(self.start)
        registrar.add_method_model(self.stop)
        registrar.add_method_model(self.flushNow)

    def zero(self, v):
        self.at["arrayCounter"].set_value(v)
        self.at["arrayCounterReadback"].set_value(v)

    def start(self):
        self.stop()
        self.fail = False
        self.at["numCapturedReadback"].set_value(0)
        self.at["running"].set_value(True)
        go = self.go = cothread.Event()
        go.Wait()
        if self.go is go:
            self.at["running"].set_value(False)
        if self.fail:
            raise RuntimeError("disk full")

    def stop(self):
        if self.go is not None:
            self.go.Signal()
            self.go = None
        self.at["running"].set_value(False)

    def flushNow(self):
        self.flushes += 1

    def arrive(self, k):
        a = self.at["arrayCounterReadback"]
        a.set_value(a.value + k)
        self.at["uniqueId"].set_value(self.at["uniqueId"].value + k)

    def write(self, k):
        a = self.at["numCapturedReadback"]
        a.set_value(a.value + k)


class Pauser(Part):
    """another part of the scan: frames are written while it stops"""

    def prep(self, w):
        self.w, self.k = w, 0
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(PauseHook, self.on_pause)

    @add_call_types
    def on_pause(self, context: AContext):
        if self.k:
            self.w.write(self.k)
            context.sleep(0)


class Driver:
    def __init__(self, init):
        self.dir = tempfile.mkdtemp(prefix="vfhdf")
        self.proc = Process("p")
        c = StatefulController("w")
        self.w = Writer("w").prep()
        c.add_part(self.w)
        self.proc.add_controller(c)
        self.m = RunnableController("det", config_dir=self.dir)
        self.h = HDFWriterPart("hdf", "w")
        self.m.add_part(self.h)
        self.pauser = Pauser("pauser").prep(self.w)
        self.m.add_part(self.pauser)
        self.proc.add_controller(self.m)
        self.proc.start()
        Context(self.proc).put(["det", "layout", "value"], LayoutTable(["hdf"], ["w"], [0.0], [0.0], [True]))
        self.runs = []
        self.err = None

    def close(self):
        self.w.stop()
        try:
            self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def wait(self, cond, t=5.0):
        end = realtime.time() + t
        while not cond():
            if realtime.time() > end:
                return False
            cothread.Sleep(0.002)
        return True

    def state(self):
        return self.m._block.state.value

    def step(self, act):
        n = act["n"]
        self.act, self.err = act, None
        ctx = Context(self.proc)
        self.f0 = self.w.flushes
        try:
            if n == "configure":
                total, prev, bp = act["secs"][-1], 0, []
                for e in act["secs"]:
                    bp.append(e - prev)
                    prev = e
                gen = CompoundGenerator([LineGenerator("x", "mm", 0, 1, total)], [], [], DURATION)
                p = dict(generator=gen, fileDir=self.dir, axesToMove=["x"])
                if len(bp) > 1:
                    p["breakpoints"] = bp
                ctx.post(["det", "configure"], p)
            elif n == "run":
                def run():
                    try:
                        Context(self.proc).post(["det", "run"])
                        self.runs.append("ok")
                    except Exception as e:
                        self.runs.append(e)
                self.runs = []
                cothread.Spawn(run)
                self.wait(lambda: self.state() != "Armed")
            elif n == "arrive":
                self.w.arrive(act["k"])
            elif n == "write":
                self.w.write(act["k"])
            elif n == "pause":
                self.pauser.k = act["k"]
                ctx.post(["det", "pause"], dict(lastGoodStep=act["g"]) if act["g"] >= 0 else {})
                self.pauser.k = 0
            elif n == "move":
                ctx.post(["det", "pause"], dict(lastGoodStep=act["g"]))
            elif n == "resume":
                ctx.post(["det", "resume"])
            elif n == "tick":
                settle(10)
                CLOCK.now += 0.4 * (hdfwriterpart.FRAME_TIMEOUT + DURATION)
                # until the part has looked at the clock (it flushes just before)
                self.wait(lambda: self.w.flushes >= self.f0 + 2 or self.state() != "Running", 0.3)
            elif n == "break":
                self.w.fail = True
                self.w.stop()
                self.wait(lambda: self.state() != "Running", 2)
            elif n in ("abort", "reset"):
                ctx.post(["det", n])
        except Exception as e:
            self.err = e
        settle(20)

    def check(self, s):
        if not s:
            return None
        n = self.act["n"]
        if self.err is not None:
            return "%s failed: %r" % (n, self.err)
        if self.state() != s["st"] and not self.wait(lambda: self.state() == s["st"], 2):
            return "%s: state is %s, not %s (%s)" % (n, self.state(), s["st"], self.m._block.health.value)
        if s["st"] == "Running":
            settle(10)
            if self.state() != "Running":
                return "%s: state is %s, not Running" % (n, self.state())
        b = self.m._block
        if s["st"] in ("Armed", "Running", "Paused", "Finished"):
            self.wait(lambda: b.completedSteps.value == s["step"], 0.5)
            if b.completedSteps.value != s["step"]:
                return "%s: completedSteps is %s, not %s" % (n, b.completedSteps.value, s["step"])
            if b.configuredSteps.value != s["hi"]:
                return "%s: configuredSteps is %s, not %s" % (n, b.configuredSteps.value, s["hi"])
        if n == "tick" and s["st"] == "Running" and self.w.at["arrayCounterReadback"].value and self.w.flushes == self.f0:
            return "frames are not flushed"
        if n == "tick" and s["st"] == "Fault" and "stalled" not in str(b.health.value) and "imeout" not in str(self.runs):
            return "fault is %s" % b.health.value
        if n == "write" and s["st"] == "Finished" and self.w.flushes == self.f0:
            return "no flush at the end"
        return None


def run_job(job, params):
    return replay_steps(lambda i: Driver(i), job, {})
