"""Replays behaviours of Validate.tla into a RunnableController whose parts ask for parameter changes."""
import shutil, tempfile
from annotypes import Anno, add_call_types
import numpy as np
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.core import Context, Part, Process
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import AGenerator, ConfigureHook, UInfos, ValidateHook
from malcolm.modules.scanning.infos import ParameterTweakInfo
from common import replay_steps
import stateful  # stubs the managers' call of sync

with Anno("a"):
    AA = int
with Anno("b"):
    AB = float
with Anno("c"):
    AC = int


class TweakPart(Part):
    def prep(self, n, drv):
        self.n, self.drv = n, drv
        self.rules = []
        return self

    def setup(self, registrar):
        super().setup(registrar)
        if self.n == 1:
            @add_call_types
            def validate(generator: AGenerator, b: AB, a: AA = 0) -> UInfos:
                return self.tweak(generator, a=a, b=b)

            @add_call_types
            def configure(generator: AGenerator, b: AB, a: AA = 0) -> UInfos:
                self.note(generator, a=a, b=b)
        else:
            @add_call_types
            def validate(generator: AGenerator, b: AB, a: AA = 0, c: AC = 1) -> UInfos:
                return self.tweak(generator, a=a, b=b, c=c)

            @add_call_types
            def configure(generator: AGenerator, b: AB, a: AA = 0, c: AC = 1) -> UInfos:
                self.note(generator, a=a, b=b, c=c)
        registrar.hook(ValidateHook, validate)
        registrar.hook(ConfigureHook, configure)
        registrar.report(ConfigureHook.create_info(configure))

    def note(self, generator, **kw):
        self.drv.conf[self.n] = dict(kw, dur=generator.duration * 2)

    def tweak(self, generator, **kw):
        kw["dur"] = generator.duration * 2
        # what the others know is not known here
        out = []
        for i, r in enumerate(self.rules):
            if kw[r["x"]] != r["v"]:
                continue
            if r["y"] not in ("reject", r["x"]) and kw.get(r["y"]) == r["w"]:
                continue
            if r["y"] == "reject":
                raise ValueError("rejected by %d" % self.n)
            if r["y"] == "dur":
                g = CompoundGenerator.from_dict(generator.to_dict())
                g.duration = r["w"] * 0.5
                out.append(ParameterTweakInfo("generator", g))
            else:
                w = r["w"]
                out.append(ParameterTweakInfo(r["y"], [w, np.int32(w), float(w) if r["y"] == "b" else w][i % 3]))
        if not out:
            return None
        return out[0] if len(out) == 1 else out


class Driver:
    def __init__(self, init):
        self.conf = {}
        self.tmp = tempfile.mkdtemp(prefix="vfval.")
        self.process = Process("p")
        self.c = RunnableController("c", self.tmp)
        self.parts = {n: TweakPart("p%d" % n).prep(n, self) for n in (1, 2, 3)}
        for n in (1, 2, 3):
            self.c.add_part(self.parts[n])
        self.process.add_controller(self.c)
        self.process.start()
        self.ctx = Context(self.process)
        self.got = None

    def close(self):
        self.process.stop(timeout=5)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def params(self, q, d):
        g = CompoundGenerator([LineGenerator("x", "mm", 0, 1, 3)], [], [], q["dur"] * 0.5)
        return dict({k: q[k] for k in "abc" if k not in d}, generator=g, axesToMove=["x"])

    def step(self, act):
        n = act["n"]
        self.got, self.conf, self.op = None, {}, n
        if n == "rules":
            R = act["R"]
            for i, rs in enumerate(R):
                self.parts[i + 1].rules = rs
        elif n == "reset":
            self.ctx.post(["c", "reset"])
        else:
            try:
                r = self.ctx.post(["c", n], self.params(act["q"], act["d"]))
            except Exception as e:
                self.got = dict(ok=False)
                self.err = str(e)
            else:
                self.got = dict(ok=True, q=self.norm(r))
                m = self.c._block[n].returned.value
                if self.norm(m) != self.got["q"]:
                    self.got["bad"] = "returned log %r" % (m,)

    def norm(self, r):
        g = r["generator"]
        if list(r["axesToMove"]) != ["x"] or g.generators[0].size != 3:
            return "axes %s size %s" % (list(r["axesToMove"]), g.generators[0].size)
        return dict(dur=g.duration * 2, a=r["a"], b=r["b"], c=r["c"])

    def check(self, st):
        if st is None:
            return None
        if self.c.state.value != st["st"]:
            return "state %s, model %s" % (self.c.state.value, st["st"])
        if self.got is None:
            return None
        if self.got not in st["allow"]:
            return "%s gave %r%s, model %r" % (self.op, self.got, "" if self.got["ok"] else " " + self.err, st["allow"])
        if self.got["ok"] and self.op == "configure":
            q = self.got["q"]
            for n in (1, 2, 3):
                want = {k: v for k, v in q.items() if n != 1 or k != "c"}
                if self.conf.get(n) != want:
                    return "part %d configured with %r, agreed %r" % (n, self.conf.get(n), want)
        return None


def run_job(job, params):
    return replay_steps(Driver, job, None)
