"""Replays behaviours of Detectors.tla into a real scan block with real DetectorChildParts over three real runnable detectors."""
import shutil, tempfile, time
import cothread
from annotypes import add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.core import Context, Controller, Part, Process
from malcolm.modules.builtin.hooks import AContext
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (ACompletedSteps, AFileDir, AFileTemplate, AFormatName, AGenerator, AStepsToDo, ConfigureHook,
                                            PostRunArmedHook, PostRunReadyHook, ReportStatusHook, RunHook, SeekHook, UInfos)
from malcolm.modules.scanning.infos import DatasetProducedInfo, DatasetType, DetectorMutiframeInfo, RunProgressInfo
from malcolm.modules.scanning.parts import DatasetTablePart, DetectorChildPart, ExposureDeadtimePart
from malcolm.modules.scanning.util import DetectorTable
from common import replay_steps, settle
from stateful import GateBlock

DETS = (1, 2, 3)


class Boom(Exception):
    pass


class Camera(Part):
    """what a detector is made of: records what it is asked, runs until told"""

    def prep(self, d, drv):
        self.d, self.drv, self.inside, self.verdict = d, drv, 0, None
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.registrar = registrar
        registrar.hook(ConfigureHook, self.on_configure)
        registrar.hook(PostRunArmedHook, self.on_armed)
        registrar.hook(SeekHook, self.on_seek)
        registrar.hook(RunHook, self.on_run)
        registrar.hook(PostRunReadyHook, self.on_ready)
        registrar.report(ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(self, context: AContext, completed_steps: ACompletedSteps, steps_to_do: AStepsToDo, generator: AGenerator,
                     fileDir: AFileDir, formatName: AFormatName = "det", fileTemplate: AFileTemplate = "%s.h5") -> UInfos:
        self.drv.configured(self.d, generator, fileDir, formatName, fileTemplate)
        self.note("conf", int(completed_steps), int(steps_to_do), int(generator.size))
        return [DatasetProducedInfo("det%d.data" % self.d, "f%d.h5" % self.d, DatasetType.PRIMARY, 2, "/p", "/u")]

    @add_call_types
    def on_armed(self, context: AContext, completed_steps: ACompletedSteps, steps_to_do: AStepsToDo) -> None:
        self.note("armed", int(completed_steps), int(steps_to_do))

    @add_call_types
    def on_seek(self, context: AContext, completed_steps: ACompletedSteps, steps_to_do: AStepsToDo) -> None:
        self.note("seek", int(completed_steps), int(steps_to_do))

    @add_call_types
    def on_ready(self, context: AContext) -> None:
        self.note("ready")

    @add_call_types
    def on_run(self, context: AContext) -> None:
        self.note("run")
        self.inside += 1
        self.verdict = None
        try:
            context.when_matches(["gate", "g", "value"], lambda v: self.verdict is not None)
        finally:
            self.inside -= 1
        if not self.verdict:
            raise Boom("boom%d" % self.d)

    def note(self, *a):
        self.drv.asked[self.d].append(list(a))


class Multiplier(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ReportStatusHook, self.on_report)

    @add_call_types
    def on_report(self, context: AContext) -> UInfos:
        return [DetectorMutiframeInfo("D1"), DetectorMutiframeInfo("D2")]


# shape: (outer size, inner size, breakpoints)
SHAPES = {1: (1, 3, []), 2: (1, 3, [2, 1]), 3: (1, 4, [1, 2]), 4: (2, 2, []), 5: (3, 2, []), 6: (2, 3, [1])}


class Driver:
    def __init__(self, init):
        self.asked = {d: [] for d in DETS}
        self.problems, self.runs, self.err, self.gen = [], [], None, None
        self.dir = tempfile.mkdtemp(prefix="vfdet")
        self.proc = Process("p")
        g = Controller("gate")
        self.gb = GateBlock("g")
        g.add_part(self.gb)
        self.proc.add_controller(g)
        self.cam, self.child, self.dead = {}, {}, {}
        for d in DETS:
            c = self.child[d] = RunnableController("D%d" % d, self.dir)
            self.cam[d] = Camera("cam").prep(d, self)
            c.add_part(self.cam[d])
            c.add_part(DatasetTablePart("DSET"))
            if d != 3:
                self.dead[d] = ExposureDeadtimePart("DEAD", 0.125, 0.0, 0.0625)
                c.add_part(self.dead[d])
            self.proc.add_controller(c)
        self.m = RunnableController("scan", self.dir)
        for d in DETS:
            self.m.add_part(DetectorChildPart("det%d" % d, "D%d" % d, True))
        self.m.add_part(Multiplier("mult"))
        self.m.add_part(DatasetTablePart("DSET"))
        self.proc.add_controller(self.m)
        self.proc.start()

    def close(self):
        for d in DETS:
            self.cam[d].verdict = True
        self.poke()
        for c in [self.m] + list(self.child.values()):
            if c.resume_queue:
                c.resume_queue.put(False)
        settle(20)
        try:
            self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def poke(self):
        self.gb.g.set_value(self.gb.g.value + 1)

    def wait(self, cond, t=5.0):
        end = time.time() + t
        while not cond():
            if time.time() > end:
                return False
            cothread.Yield() if time.time() < end - t + 0.2 else cothread.Sleep(0.002)
        return True

    def configured(self, d, gen, file_dir, fmt, tmpl):
        if file_dir != self.dir or fmt != "det%d" % d or tmpl != "%s.nxs":
            self.problems.append("detector %d told to write %r %r %r" % (d, file_dir, fmt, tmpl))
        f = self.fps[d]
        gen.prepare()
        if gen.size != self.gen.size * f:
            self.problems.append("detector %d: %d frames for %d steps" % (d, gen.size, self.gen.size))
            return
        if abs(gen.duration * f - 0.75) > 1e-9:
            self.problems.append("detector %d: frames of %s s" % (d, gen.duration))
        for i in range(gen.size):
            a, b = gen.get_point(i).positions, self.gen.get_point(i // f).positions
            if {k: a.get(k) for k in b} != b:
                self.problems.append("detector %d: frame %d is at %s, step %d at %s" % (d, i, a, i // f, b))
                return

    def make(self, act):
        outer, inner, bp = SHAPES[act["shape"]]
        gens = [LineGenerator("y", "mm", 0, 1, outer)] if outer > 1 else []
        gens.append(LineGenerator("x", "mm", 5, 6, inner))
        self.fps = dict(zip(DETS, act["fps"]))
        self.gen = CompoundGenerator(gens, [], [], 0.75)
        self.gen.prepare()
        rows = []
        for d in DETS:
            f = self.fps[d]
            if act["given"][d - 1] or act["full"]:
                given = act["given"][d - 1]
                rows.append([given > 0, "det%d" % d, "D%d" % d, given % 10 / 8.0, max(given // 10 - 1, 0)])
        if act["shape"] % 2:
            rows.reverse()
        p = dict(generator=CompoundGenerator.from_dict(self.gen.to_dict()), fileDir=self.dir, axesToMove=["x"], fileTemplate="%s.nxs",
                 detectors=DetectorTable.from_rows(rows))
        if bp:
            p["breakpoints"] = bp
        return p

    def step(self, act):
        n = act["n"]
        self.act, self.err, self.ret = act, None, None
        ctx = Context(self.proc)
        self.asked = {d: [] for d in DETS}
        try:
            if n == "configure":
                p = self.make(act)
                self.ret = ctx.post(["scan", "validate"], dict(p), timeout=20)
                ctx.post(["scan", "configure"], p, timeout=20)
            elif n == "run":
                def run():
                    try:
                        Context(self.proc).post(["scan", "run"])
                        self.runs.append("ok")
                    except Exception as e:
                        self.runs.append(e)
                self.runs = []
                cothread.Spawn(run)
            elif n == "progress":
                self.cam[act["d"]].registrar.report(RunProgressInfo(act["to"]))
            elif n in ("finish", "fail"):
                self.cam[act["d"]].verdict = n == "finish"
                self.poke()
            elif n == "pause":
                ctx.post(["scan", "pause"], dict(lastGoodStep=act["g"]) if act["g"] >= 0 else {}, timeout=20)
            elif n == "snatch":
                ctx.post(["D%d" % act["d"], "abort"], timeout=20)
            else:
                ctx.post(["scan", n], timeout=20)
        except Exception as e:
            self.err = e

    def agree(self, s):
        n, act = self.act["n"], self.act
        if n == "configure" and not act["ok"]:
            if self.err is None:
                return "detectors %s accepted" % act["fps"]
        elif self.err is not None:
            return "failed: %r" % self.err
        if self.problems:
            return self.problems[0]
        b = self.m._block
        if b.state.value != s["st"]:
            return "the scan is %s, not %s (%s)" % (b.state.value, s["st"], b.health.value)
        for i, d in enumerate(DETS):
            cb, want = self.child[d]._block, s["cst"][i]
            if want != "?" and cb.state.value != want:
                return "detector %d is %s, not %s (%s)" % (d, cb.state.value, want, cb.health.value)
            if want != "?" and self.cam[d].inside != (want == "Running"):
                return "detector %d is running %d times while it is %s" % (d, self.cam[d].inside, want)
            if self.asked[d] != [list(x) for x in s["ask"][i]]:
                return "detector %d was asked %s, not %s" % (d, self.asked[d], s["ask"][i])
            if s["st"] in ("Armed", "Running", "Paused", "Finished") and self.fps[d] and cb.completedSteps.value != s["c"][i]:
                return "detector %d is at frame %d, not %d" % (d, cb.completedSteps.value, s["c"][i])
        if s["st"] in ("Armed", "Running", "Paused", "Finished"):
            if b.completedSteps.value != s["step"]:
                return "completedSteps is %s, not %s" % (b.completedSteps.value, s["step"])
            if b.configuredSteps.value != s["hi"]:
                return "configuredSteps is %s, not %s" % (b.configuredSteps.value, s["hi"])
        if n == "fail" and ("boom%d" % act["d"] not in str(b.health.value) or len(self.runs) != 1 or "boom%d" % act["d"] not in str(self.runs[0])):
            return "detector %d failed, the scan says %s, run %s" % (act["d"], b.health.value, self.runs)
        if s["st"] == "Finished" and self.runs != ["ok"]:
            return "run returned %s" % self.runs
        if n == "configure" and act["ok"]:
            r = self.ret["detectors"]
            got = {row[1]: (bool(row[0]), row[2], int(row[4]) if row[0] else 0, float(row[3])) for row in r.rows()}
            want = {"det%d" % d: (f > 0, "D%d" % d, f, act["exp"][d - 1] / 8.0) for d, f in self.fps.items()}
            if got != want or len(r.name) != 3:
                return "validate of %s gave %s" % (act["fps"], [list(row) for row in r.rows()])
            for d in (1, 2):
                if self.fps[d] and self.dead[d].exposure.value * 8 != act["exp"][d - 1]:
                    return "detector %d exposes for %s" % (d, self.dead[d].exposure.value)
            names = sorted(b.datasets.value.name)
            if names != sorted("det%d.data" % d for d in DETS if self.fps[d]):
                return "datasets %s" % names
        return None

    def check(self, s):
        if not s:
            return None
        self.wait(lambda: self.agree(s) is None, 3)
        settle(100)
        m = self.agree(s)
        return None if m is None else "%s: %s" % (self.act["n"], m)


def run_job(job, params):
    return replay_steps(lambda i: Driver(i), job, {})
