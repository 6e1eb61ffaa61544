"""Replays behaviours of Layout.tla into a real ManagerController whose children have ports."""
import shutil, tempfile
from malcolm.core import Part, Port, Process, StringMeta, config_tag
from malcolm.modules.builtin.controllers import BasicController, ManagerController
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import LayoutTable
import stateful  # noqa: F401  (keeps the manager from running sync)
from common import replay_steps, settle

TYPES = dict(b=Port.BOOL, c=Port.BOOL, i=Port.INT32)
OFF = dict(b="ZERO", c="", i="ZERO")
SOURCES = {1: ["B1"], 2: ["B2", "I2"], 3: ["I3", "B3"]}
ASKED = dict(yes=True, no=False, auto=None)


class Ports(Part):
    def prep(self, p, drv, vals):
        self.p, self.drv, self.vals, self.attrs, self.puts = p, drv, vals, {}, {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for v in SOURCES[self.p]:
            t = Port.BOOL if v[0] == "B" else Port.INT32
            m = StringMeta("source", tags=[t.source_port_tag(v)])
            registrar.add_attribute_model("out" + v, m.create_attribute_model("x"))
        for s in ("b", "i"):
            a, w = self.make(s)
            registrar.add_attribute_model(s, a, w)
        self.make("c")

    def make(self, s):
        tags = ["widget:textinput", TYPES[s].sink_port_tag(OFF[s])]
        if s == "b":
            tags.append(config_tag(1))
        a = self.attrs[s] = StringMeta("sink", tags=tags).create_attribute_model(self.vals[s] if self.vals[s] != "none" else OFF[s])
        w = None if (self.p, s) == (3, "i") else lambda v: self.write(s, v)
        self.puts[s] = w
        return a, w

    def write(self, s, v):
        self.drv.written.append([self.p, s, v, self.attrs[s].value])
        self.attrs[s].set_value(v)


class Driver:
    def __init__(self, w):
        act, st = w[0]
        self.written, self.problems = [], []
        self.dir = tempfile.mkdtemp(prefix="vflay")
        self.proc = Process("p")
        self.m = ManagerController("m", self.dir)
        self.child, self.ports = {}, {}
        for k in (1, 2, 3):
            c = self.child[k] = BasicController("C%d" % k)
            self.ports[k] = Ports("ports").prep(k, self, st["val"][k - 1])
            c.add_part(self.ports[k])
            self.proc.add_controller(c)
            self.m.add_part(ChildPart("p%d" % k, "C%d" % k, ASKED[act["asked"][k - 1]], stateful=False))
        self.on = False
        self.swap(True)
        self.proc.add_controller(self.m)
        self.proc.start()

    def swap(self, on):
        c = self.child[2]
        if on:
            c.add_block_field("c", self.ports[2].attrs["c"], self.ports[2].puts["c"], False)
        else:
            c._block.remove_endpoint("c")
            c._write_functions.pop("c", None)
        self.on = on

    def close(self):
        try:
            self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def step(self, a):
        n = a["n"]
        if n == "init":
            return
        self.written[:] = []
        b = self.m.block_view()
        if n == "set":
            if (a["p"], a["s"]) == (3, "i"):
                self.ports[3].attrs["i"].set_value(a["v"])
            else:
                self.child[a["p"]].block_view()[a["s"]].put_value(a["v"])
        elif n == "put":
            rows = [["p%d" % p, "nonsense", x, y, v] for p, x, y, v in a["rows"]]
            if a["extra"]:
                rows.insert(0, ["p9", "C1", 3, 4, False])
            b.layout.put_value(LayoutTable.from_rows(rows))
        elif n == "swap":
            self.swap(a["on"])
        elif n == "save":
            b.save(a["f"])
        elif n == "load":
            b.design.put_value(a["f"])
        settle(20)

    def check(self, s):
        out = []
        got = self.m.block_view().layout.value
        want = [["p%d" % p, "C%d" % p, float(s["pos"][p - 1][0]), float(s["pos"][p - 1][1]), s["vis"][p - 1]] for p in (1, 2, 3)]
        got = [[n, m, float(x), float(y), bool(v)] for n, m, x, y, v in got.rows()]
        if got != want:
            out.append("the layout is %s, model %s" % (got, want))
        for p in (1, 2, 3):
            b = self.child[p].block_view()
            for k, v in s["val"][p - 1].items():
                g = b[k].value if k in b else "none"
                if g != v:
                    out.append("sink %s of child %d is %r, model %r" % (k, p, g, v))
        if self.m.state.value != "Ready":
            out.append("state %s" % self.m.state.value)
        return "; ".join(out) or None


def run_job(job, params):
    return replay_steps(lambda i: Driver(job), job, job[0][1])
