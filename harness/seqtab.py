"""Drives the real DoubleBuffer (and SeqTriggers) with requests and table switches; records what is
written to the two sequencer tables."""
import cothread
import numpy as np
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.core import (BooleanMeta, Context, Controller, NumberMeta, Part, Process, StringMeta, TableMeta)
from malcolm.modules.ADPandABlocks.doublebuffer import MIN_PULSE, DoubleBuffer, SequencerRows
from malcolm.modules.ADPandABlocks.parts.pandaseqtriggerpart import SeqTriggers
from malcolm.modules.ADPandABlocks.util import SequencerTable
from malcolm.modules.pmac.infos import MotorInfo
from malcolm.modules.pmac.util import MinTurnaround
from common import settle


class SeqPart(Part):
    def prep(self, t, drv):
        self.t, self.drv = t, drv
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.table = TableMeta.from_table(SequencerTable, "t", writeable=list(SequencerTable.call_types)
                                          ).create_attribute_model()
        self.active = BooleanMeta("a").create_attribute_model(False)
        self.rep = NumberMeta("int32", "r", writeable=True).create_attribute_model(self.drv.rep0)
        self.pre = NumberMeta("int32", "p", writeable=True).create_attribute_model(self.drv.pre0)
        self.label = StringMeta("l").create_attribute_model("seq" + self.t)
        registrar.add_attribute_model("table", self.table, self.put)
        registrar.add_attribute_model("active", self.active)
        registrar.add_attribute_model("repeats", self.rep, self.rep.set_value)
        registrar.add_attribute_model("prescale", self.pre, self.pre.set_value)
        registrar.add_attribute_model("label", self.label)

    def put(self, value):
        self.table.set_value(value)
        self.drv.wrote(self.t, value)


def motor(n):
    return MotorInfo(cs_axis=n, cs_port="CS1", acceleration=2.5, resolution=0.001, offset=0.0, max_velocity=1.0,
                     current_position=0.5, scannable=n, velocity_settle=0.0, units="mm", user_high_limit=0,
                     user_low_limit=0, dial_high_limit=0, dial_low_limit=0)


TRIG = {("x", True): "POSA>=POSITION", ("x", False): "POSA<=POSITION",
        ("y", True): "POSB>=POSITION", ("y", False): "POSB<=POSITION"}


class Driver:
    def __init__(self, rep0, pre0):
        self.rep0, self.pre0 = rep0, pre0
        self.trace = []
        self.kinds = {}
        self.process = Process("p")
        self.parts = {}
        for t in "AB":
            c = Controller("seq" + t)
            self.parts[t] = SeqPart("part").prep(t, self)
            c.add_part(self.parts[t])
            self.process.add_controller(c)
        self.process.start()
        self.ctx = Context(self.process)
        self.db = DoubleBuffer(self.ctx, self.ctx.block_view("seqA"), self.ctx.block_view("seqB"))
        self.task = None
        self.problem = None

    # -- rows and what identifies them
    def kind(self, trigger, position, half, live, dead, trim=0):
        key = (trigger, position, half, (live, dead), half - trim)
        return self.kinds.setdefault(key, len(self.kinds) + 1)

    def wrote(self, t, tb):
        rep = [int(x) for x in tb.repeats]
        segs, last = [], None
        outs = [getattr(tb, "out%s%d" % (o, p)) for p in (1, 2) for o in "abcdef"]
        for i in range(len(rep)):
            o = [int(x[i]) for x in outs]
            key = (tb.trigger[i], int(tb.position[i]), int(tb.time1[i]), (o[0], o[1]), int(tb.time2[i]))
            sh = False
            k = self.kinds.get(key)
            if k is None or any(o[2:]):
                long = key[:4] + (key[4] + 6,)
                k = self.kinds.get(long, 0) if not any(o[2:]) else 0
                sh = True
                if not k:
                    # the blind time of a turnaround is a row of its own kind the first time
                    if self.blind is None and key[3] == (0, 1) and self.pcomp:
                        self.blind = key
                        self.kinds[key] = 99
                        k, sh = 99, False
            if segs and last == (k, sh) and not sh:
                s = segs[-1]
                s["n"] += 1
                s["c"] += rep[i]
                s["mx"], s["mn"] = max(s["mx"], rep[i]), min(s["mn"], rep[i])
            else:
                segs.append(dict(k=k, c=rep[i], n=1, mx=rep[i], mn=rep[i], sh=sh))
            last = (k, sh)
        self.trace.append(dict(e="put", t=t, segs=segs))

    def want(self, reqs):
        out = []
        for k, c in reqs:
            if c and out and out[-1]["k"] == k and out[-1]["c"]:
                out[-1]["c"] += c
            else:
                out.append(dict(k=k, c=c))
        return out

    def configure(self, act):
        self.kinds, self.blind, self.pcomp = {}, None, False
        if act["n"] == "cfg":
            reqs, chunks = [], []
            for ch in act["chunks"][0]:
                rows = SequencerRows()
                for e in ch:
                    half = 40000000 if e["long"] else 2000
                    # (too many of these take too long to look at)
                    n = e["n"] if e["c"] < 4 else min(e["n"], 3)
                    for _ in range(n):
                        rows.add_seq_entry(e["c"], trigger="BITA=1", position=e["k"] * 7, half_duration=half, live=1)
                    reqs.append((self.kind("BITA=1", e["k"] * 7, half, 1, 0), e["c"] * n))
                chunks.append(rows)
            if act["fin"]:
                rows = SequencerRows()
                rows.add_seq_entry(half_duration=MIN_PULSE, dead=1)
                rows.add_seq_entry(count=0)
                chunks.append(rows)
                reqs += [(self.kind("Immediate", 0, MIN_PULSE, 0, 1), 1), (self.kind("Immediate", 0, MIN_PULSE, 0, 0), 0)]
            gen = iter(chunks)
        else:
            nx, ny = act["nx"], act["ny"]
            dur = 0.2 if act["long"] else 0.01
            half = int(round(dur / 8e-9 / 2))
            xmax = 0.004 * (nx - 1)
            g = CompoundGenerator([LineGenerator("y", "mm", 0, 1, ny), LineGenerator("x", "mm", 0, xmax, nx)],
                                  [], [], dur, continuous=True)
            g.prepare()
            kind = act["kind"]
            start = nx * min(act["from"], ny - 1)
            self.pcomp = kind == "pcomp"
            s = SeqTriggers(g, {} if kind == "time" else {"x": motor("x"), "y": motor("y")},
                            TRIG if kind == "pcomp" else {}, MinTurnaround(0.002, 0.002))
            gen = s.get_rows(start, g.size)
            imm = self.kind("Immediate", 0, half, 1, 0)
            reqs = []
            if kind == "time":
                reqs.append((imm, g.size - start))
            else:
                if kind == "gate":
                    trig = self.kind("BITA=1", 0, half, 1, 0)
                else:
                    p = g.get_point(start)
                    trig = self.kind("POSA>=POSITION", int(p.lower["x"] / 0.001), half, 1, 0)
                for row in range(ny - min(act["from"], ny - 1)):
                    if row:
                        reqs.append((self.kind("BITA=0", 0, MIN_PULSE, 0, 1) if kind == "gate" else 99, 1))
                    reqs += [(trig, 1), (imm, nx - 1)]
            reqs += [(self.kind("Immediate", 0, MIN_PULSE, 0, 1), 1), (self.kind("Immediate", 0, MIN_PULSE, 0, 0), 0)]
        self.trace.append(dict(e="cfg", req=self.want(reqs)))
        self.db.configure(gen)

    def set(self, t, v):
        self.trace.append(dict(e="play" if v else "stop", t=t))
        self.parts[t].active.set_value(v)

    def waiter(self, futures):
        try:
            self.ctx.wait_all_futures(futures)
            self.trace.append(dict(e="ret"))
        except Exception:
            pass

    def last(self, t):
        """what the table ends with: for ever, or is there anything new in it"""
        r = self.parts[t].table.value.repeats
        return len(r) and r[-1] == 0

    def step(self, act):
        n = act["n"]
        if n in ("cfg", "scan"):
            self.fresh = {"A": False, "B": False}
            self.cur, self.nxt = None, "A"
            self.configure(act)
            self.running = False
        elif n == "run":
            self.trace.append(dict(e="run", rep=[int(self.parts[t].rep.value) for t in "AB"],
                                   pre=[int(self.parts[t].pre.value) for t in "AB"]))
            self.set("A", True)
            self.cur = "A"
            f = self.db.run()
            self.running = True
            self.task = cothread.Spawn(self.waiter, f)
        elif n == "switch":
            c = self.cur
            o = "B" if c == "A" else "A"
            if not self.running or self.last(c) or not self.unplayed(o):
                return
            if act["o"]:
                self.set(c, False)
                settle(1)
                self.set(o, True)
            else:
                self.set(c, False)
                self.set(o, True)
            self.cur = o
        elif n == "clean":
            self.trace.append(dict(e="clean"))
            self.db.clean_up()
            self.running = False
            for t in "AB":
                if self.parts[t].active.value:
                    self.parts[t].active.set_value(False)
        settle(25)
        self.trace.append(dict(e="idle"))

    def unplayed(self, t):
        """has table t been written since it last played?"""
        w = max([i for i, e in enumerate(self.trace) if e["e"] == "put" and e["t"] == t], default=-1)
        p = max([i for i, e in enumerate(self.trace) if e["e"] == "play" and e["t"] == t], default=-1)
        c = max([i for i, e in enumerate(self.trace) if e["e"] == "cfg"], default=-1)
        return w > max(p, c)

    def close(self):
        self.process.stop(timeout=5)


def run_job(job, params):
    k = job["k"]
    d = Driver(k[0] % 2, k[1] % 2)
    try:
        for act, _ in job["w"]:
            d.step(act)
        return dict(ok=True, trace=list(d.trace), steps=len(d.trace))
    finally:
        d.close()
