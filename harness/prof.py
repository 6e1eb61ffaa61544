"""Runs scans with the real PmacChildPart in a RunnableController, with a simulated motion controller; records the
trajectories written to it and the progress reported."""
import shutil, tempfile, time
import cothread
import numpy as np
from annotypes import add_call_types, Anno, Array
from typing import Union
from scanpointgenerator import ArrayGenerator, CompoundGenerator, LineGenerator, StaticPointGenerator
from malcolm.core import Context, NumberMeta, Part, Process, StringMeta, TableMeta
from malcolm.modules.builtin.controllers import BasicController, StatefulController
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.pmac.parts import PmacChildPart, pmacchildpart
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (AAxesToMove, ACompletedSteps, AContext, AGenerator, AStepsToDo, ConfigureHook, PostRunArmedHook,
                                            ReportStatusHook, SeekHook, UInfos)
from malcolm.modules.scanning.infos import MinTurnaroundInfo, MotionTrigger, MotionTriggerInfo
from scanpointgenerator import Mutator
import stateful  # noqa: F401
from common import settle

UNIT = 1e5
TRIG = dict(every=MotionTrigger.EVERY_POINT, gate=MotionTrigger.ROW_GATE, none=MotionTrigger.NONE)
POINTS0, BATCH0 = pmacchildpart.PROFILE_POINTS, getattr(pmacchildpart, "BATCH_POINTS", None)

with Anno("port"):
    APort = str
with Anno("times"):
    ATimes = Union[Array[np.int32]]
with Anno("modes"):
    AModes = Union[Array[np.int32]]
with Anno("programs"):
    AProgs = Union[Array[np.int32]]
with Anno("positions"):
    APos = Union[Array[np.float64]]
with Anno("move time"):
    AMove = float
with Anno("position"):
    AP = float
with Anno("frequency"):
    AFreq = float


with Anno("delay"):
    ADelay = float


@Mutator.register_subclass("vf:mutator/OddDelay:1.0")
class OddDelay(Mutator):
    """a delay after every other point"""

    def __init__(self, delay: ADelay) -> None:
        self.delay = delay

    def mutate(self, point, idx):
        point.delay_after = point.delay_after + self.delay * (np.asarray(idx) % 2)
        return point


class Motor(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.at = {}
        for n in ("maxVelocity", "maxVelocityPercent", "accelerationTime", "resolution", "offset", "readback", "velocitySettle",
                  "userHighLimit", "userLowLimit", "dialHighLimit", "dialLowLimit"):
            self.at[n] = NumberMeta("float64", n).create_attribute_model()
        for n in ("cs", "units"):
            self.at[n] = StringMeta(n).create_attribute_model()
        for n, a in self.at.items():
            registrar.add_attribute_model(n, a)


class Pmac(Part):
    def prep(self, drv):
        self.drv = drv
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.layout = TableMeta.from_table(LayoutTable, "layout").create_attribute_model()
        registrar.add_attribute_model("layout", self.layout)
        self.scanned = NumberMeta("int32", "n").create_attribute_model()
        registrar.add_attribute_model("pointsScanned", self.scanned)
        for f in (self.writeProfile, self.executeProfile, self.abortProfile, self.moveCS1, self.servoFrequency):
            registrar.add_method_model(f)
        self.go = None
        self.sent = 0

    @add_call_types
    def writeProfile(self, timeArray: ATimes, csPort: APort = None, velocityMode: AModes = None, userPrograms: AProgs = None,
                     a: APos = None, b: APos = None, c: APos = None, u: APos = None, v: APos = None, w: APos = None, x: APos = None,
                     y: APos = None, z: APos = None) -> None:
        n = len(timeArray)
        pos = {k: q for k, q in dict(a=a, b=b, c=c, u=u, v=v, w=w, x=x, y=y, z=z).items() if q is not None}
        for q in list(pos.values()) + [velocityMode, userPrograms]:
            if q is not None and len(q) != n:
                raise ValueError("lengths differ")
        if csPort is not None:
            if csPort != "CS1":
                raise ValueError("no such port %s" % csPort)
            self.sent = 0
            self.scanned.set_value(0)
        self.sent += n
        self.drv.wrote(csPort is not None, timeArray, velocityMode, userPrograms, pos)

    def executeProfile(self):
        if not self.drv.armed:
            # part of configuring
            self.scanned.set_value(self.sent)
            return
        self.go = go = cothread.Event()
        go.Wait()

    def abortProfile(self):
        self.finish()

    def finish(self):
        go, self.go = self.go, None
        if go is not None:
            go.Signal()

    @add_call_types
    def moveCS1(self, moveTime: AMove, a: AP = None, b: AP = None, c: AP = None, u: AP = None, v: AP = None, w: AP = None, x: AP = None,
                y: AP = None, z: AP = None) -> None:
        cothread.Yield()

    @add_call_types
    def servoFrequency(self) -> AFreq:
        return 3200.0


class Spy(Part):
    """tells what range and generator the parts are given, and the triggers and turnarounds wanted"""

    def prep(self, drv):
        self.drv = drv
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ReportStatusHook, self.on_report)
        registrar.hook((ConfigureHook, PostRunArmedHook, SeekHook), self.on_configure)

    @add_call_types
    def on_report(self) -> UInfos:
        c, d = self.drv.c, self.drv.d
        infos = [MotionTriggerInfo(TRIG[c["trig"]])]
        if d["gap"]:
            infos.append(MinTurnaroundInfo(d["gap"] / 1000.0, 0.002))
        return infos

    @add_call_types
    def on_configure(self, context: AContext, completed_steps: ACompletedSteps, steps_to_do: AStepsToDo, generator: AGenerator,
                     axesToMove: AAxesToMove) -> None:
        self.drv.ranged(completed_steps, steps_to_do, generator, axesToMove)


class Driver:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vfprof")
        self.trace = [dict(e="off")]
        self.c, self.d = dict(trig="every"), dict(gap=0)
        self.armed = False
        self.taking = False
        self.proc = Process("p")
        self.motors = {}
        for n in ("x", "y"):
            k = BasicController("M" + n)
            self.motors[n] = Motor("m")
            k.add_part(self.motors[n])
            self.proc.add_controller(k)
        k = StatefulController("PMAC")
        self.pmac = Pmac("p").prep(self)
        k.add_part(self.pmac)
        self.proc.add_controller(k)
        self.m = RunnableController("scan", config_dir=self.dir)
        self.part = PmacChildPart("pmac", "PMAC", initial_visibility=True)
        self.m.add_part(self.part)
        self.m.add_part(Spy("spy").prep(self))
        self.proc.add_controller(self.m)
        self.proc.start()
        self.pmac.layout.set_value(LayoutTable(["x", "y"], ["Mx", "My"], [0, 0], [0, 0], [True, True]))
        self.msg = None

    def close(self):
        pmacchildpart.PROFILE_POINTS = POINTS0
        if BATCH0 is not None:
            pmacchildpart.BATCH_POINTS = BATCH0
        self.pmac.finish()
        try:
            self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- what is told
    def ranged(self, start, n, gen, axes):
        self.range = (int(start), int(n), gen, list(axes))

    def wrote(self, build, times, modes, progs, pos):
        if build:
            self.batches = []
        self.batches.append((list(times), list(modes) if modes is not None else [0] * len(times), list(progs), {k: list(q) for k, q in pos.items()}))

    def flush(self):
        """tell of the batches written since"""
        bs, self.batches = self.batches, []
        for times, modes, progs, pos in bs:
            self.trace.append(dict(e="batch", k=len(times)))
            for i in range(len(times)):
                x = [int(round(pos[l][i] * UNIT)) if l in pos else 10 ** 8 for l in self.letters]
                if len(pos) != len(self.letters):
                    x.append(0)
                self.trace.append(dict(e="pt", dt=int(times[i]), o=int(progs[i]), v=int(modes[i]), x=x))

    def scan(self):
        """the range the parts were given, as rows of joined points"""
        start, n, gen, axes = self.range
        axes = [a for a in axes if a in ("x", "y")]
        rows, gaps, prev = [], [], None
        for i in range(start, start + n):
            p = gen.get_point(i)
            if prev is not None and (not gen.axes or not prev.upper or all(prev.upper[a] == p.lower[a] for a in prev.upper) and prev.delay_after == 0):
                rows[-1] += [p.positions, p.upper]
            else:
                if prev is not None:
                    gaps.append(int(1e6 * max(prev.delay_after, self.d["gap"] / 1000.0, 0.002)))
                rows.append([p.lower, p.positions, p.upper])
            prev = p
        self.letters = [self.cs[a] for a in axes]
        h = [[[int(round(q[a] * UNIT)) for a in axes] for q in row] for row in rows]
        return dict(rows=h, dur=int(round(gen.duration * 1e6)), every=self.c["trig"] == "every", gate=self.c["trig"] == "gate", gaps=gaps + [0],
                    vmax=[100 * 10] * len(axes), **{"from": start, "mb": min(self.d["mb"], 2000)})

    def state(self):
        return self.m._block.state.value

    def wait(self, cond, t=5.0):
        end = time.time() + t
        while not cond():
            if time.time() > end:
                return False
            cothread.Sleep(0.001)
        return True

    def built(self):
        """after configure, seek or the end of a section: a new trajectory"""
        if self.taking:
            self.trace.append(dict(e="cfg", s=self.scan()))
            self.flush()
        self.armed = True

    def configure(self, c, d):
        self.c, self.d = c, d
        self.armed = False
        self.batches = []
        nx, ny, kind = c["nx"], c["ny"], c["kind"]
        if c["trig"] == "every":
            # a point and the gap after it fit in a batch
            long = c["dur"] > 8000 or d["gap"] > 4000 or d["delay"] > 4000
            d = self.d = dict(d, mb=max(d["mb"], 23 if long else 10))
        if kind == "array":
            nx = max(nx, 2)
        dur = c["dur"] / 1000.0
        self.taking = not (d["axes"] == "none" and c["trig"] == "none")
        # at most half of the 10 mm/s
        s = min(5.0 * dur, 1.0)
        base = 0.3 * d["off"]
        xs = LineGenerator("x", "mm", base, base + s * (nx - 1) * (-1 if d["back"] else 1), nx, alternate=c["alt"])
        ys = LineGenerator("y", "mm", 1.0, 1.0 + 0.5 * (ny - 1), ny)
        if kind == "array":
            v, pts = 0.0, []
            for i in range(nx):
                pts.append(v)
                v += s * (0.3 + 0.35 * ((i * 7) % 3))
            xs = ArrayGenerator("x", "mm", [base + (-q if d["back"] else q) for q in pts], alternate=c["alt"])
        elif kind == "jump":
            xs = LineGenerator(["x", "y"], ["mm", "mm"], [base, 1.0], [base + s * (nx - 1), 1.0 + 0.5 * s * (nx - 1)], nx, alternate=c["alt"])
            ys = StaticPointGenerator(ny)
        gens = [ys, xs]
        if kind == "grid3":
            gens = [StaticPointGenerator(2), ys, xs]
        if d["axes"] == "none":
            gens = [StaticPointGenerator(nx * ny)]
        muts = []
        if d["delay"] and d["axes"] != "none":
            muts = [OddDelay(d["delay"] / 1000.0)]
        gen = CompoundGenerator(gens, [], muts, dur, continuous=kind != "step")
        if kind == "jump" and d["axes"] != "none":
            d = self.d = dict(d, axes="xy")
        axes = dict(xy=["x", "y"], x=["x"], yx=["y", "x"], none=[])[d["axes"]]
        self.cs = dict(x="a", y="b") if not d["back"] else dict(x="z", y="u")
        for n, m in self.motors.items():
            for k, v in dict(cs="CS1," + self.cs[n].upper(), accelerationTime=10.0 / (d["acc"] * 10.0), resolution=0.001, maxVelocity=20.0,
                             maxVelocityPercent=50.0, readback=0.5, velocitySettle=d["settle"] / 1000.0, units="mm").items():
                m.at[k].set_value(v)
        pmacchildpart.PROFILE_POINTS = d["mb"] if d["mb"] < 2000 else POINTS0
        if BATCH0 is not None:
            pmacchildpart.BATCH_POINTS = d["bp"] if d["bp"] < 20000 else BATCH0
        p = dict(generator=gen, axesToMove=axes)
        total = nx * ny * (2 if kind == "grid3" and d["axes"] != "none" else 1)
        self.total = total
        inner = 0 if d["axes"] == "none" else nx * (1 if kind == "jump" or d["axes"] == "x" else ny)
        if d["brk"] and inner > 2:
            a = 1 if d["brk"] == 1 else inner // 2
            p["breakpoints"] = [a, inner - a]
        Context(self.proc).post(["scan", "configure"], p)
        self.built()

    def run(self):
        def go():
            try:
                Context(self.proc).post(["scan", "run"])
            except Exception:
                pass
        cothread.Spawn(go)
        self.wait(lambda: self.state() == "Running" and (self.pmac.go is not None or not self.taking) or self.state() not in ("Running", "Armed", "PostRun"))
        settle(10)

    def scanned(self, k):
        """the controller does k points"""
        n = int(min(self.pmac.scanned.value + k, self.pmac.sent))
        self.pmac.scanned.set_value(n)
        settle(30)
        every = self.c["trig"] == "every"
        self.wait(lambda: not self.part.loading)
        self.trace.append(dict(e="scan", k=n, rep=int(self.m._block.completedSteps.value) if every else -1))
        self.flush()
        self.trace.append(dict(e="fed"))
        if n == self.pmac.sent:
            self.trace.append(dict(e="done"))
            self.armed = False
            self.pmac.finish()
            self.wait(lambda: self.state() in ("Armed", "Finished", "Ready", "Fault"))
            settle(20)
            self.trace.append(dict(e="off"))
            if self.state() == "Armed":
                self.built()
            elif self.state() not in ("Ready", "Finished"):
                self.msg = "%s: %s" % (self.state(), self.m._block.health.value)

    def step(self, act):
        n, s, ctx = act["n"], self.state(), Context(self.proc)
        if n == "cfg" and s in ("Ready", "Finished"):
            self.configure(dict(act["a"], **act["b"]), dict(act["b"], settle=0, **dict(act["c"], **act["d"])))
        elif n == "run" and s == "Armed" and self.taking:
            self.run()
        elif n in ("scan", "most") and s == "Running":
            self.scanned(act["k"] if n == "scan" else max(self.pmac.sent - self.pmac.scanned.value - act["k"], 0))
        elif n == "pause" and s in ("Running", "Paused") or n == "move" and s in ("Armed", "Finished"):
            lo = 0
            at = int(self.m._block.completedSteps.value)
            g = max(lo, at - act["k"]) if n == "pause" else min(act["k"], self.total - 1)
            if self.c["trig"] != "every" and n == "pause":
                g = min(act["k"], self.range[0] + self.range[1] - 1)
            self.trace.append(dict(e="off"))
            self.armed = False
            self.batches = []
            ctx.post(["scan", "pause"], dict(lastGoodStep=g))
            self.built()
        elif n == "resume" and s == "Paused":
            ctx.post(["scan", "resume"])
            self.wait(lambda: self.pmac.go is not None)
            settle(10)
        elif n == "abort":
            self.armed = False
            if s not in ("Ready", "Finished"):
                ctx.post(["scan", "abort"])
            if s != "Ready":
                ctx.post(["scan", "reset"])
            self.batches = []
            self.trace.append(dict(e="off"))
        settle(5)
        if self.state() == "Fault":
            self.msg = "%s: Fault: %s" % (n, self.m._block.health.value)


def run_job(job, params):
    drv, i = None, -1
    try:
        drv = Driver()
        for i, (act, _) in enumerate(job["w"]):
            drv.step(act)
            if drv.msg:
                return dict(ok=False, step=i, act=act, msg=drv.msg)
        return dict(ok=True, trace=drv.trace, steps=len(job["w"]))
    except Exception:
        import traceback
        return dict(ok=False, step=i, act=job["w"][i][0] if i >= 0 else None, msg="exception: " + traceback.format_exc()[-1500:])
    finally:
        if drv:
            drv.close()
