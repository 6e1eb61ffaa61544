"""Replays behaviours of Design.tla into a real ManagerController with three real children."""
import json, os, shutil, tempfile
from malcolm.core import (Alarm, AlarmSeverity, ChoiceMeta, Context, NumberArrayMeta, NumberMeta, Part, Process, StringArrayMeta, StringMeta,
                          Subscribe, Table, TableMeta, BooleanArrayMeta, config_tag)
from annotypes import Anno, Array, add_call_types
from typing import Union, Sequence
from malcolm.modules.builtin.controllers import BasicController, ManagerController, StatefulController
from malcolm.modules.builtin.hooks import AContext, SaveHook
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable, no_save
import stateful  # noqa: F401  (keeps the manager from running sync)
from common import replay_steps, settle

with Anno("numbers"):
    ANums = Union[Array[float]]
with Anno("texts"):
    ATexts = Union[Array[str]]


class T1(Table):
    def __init__(self, num: Union[ANums, Sequence[float]], text: Union[ATexts, Sequence[str]]):
        self.num = ANums(num)
        self.text = ATexts(text)


# (meta, [value of 0, 1, 2])
def kinds(c, f):
    t = {
        (1, "a"): (NumberMeta("int32", "a"), [0, 5, -7]),
        (1, "b"): (StringArrayMeta("b"), [[], ["x"], ["x", "y"]]),
        (2, "a"): (ChoiceMeta("a", ["zero", "one", "two"]), ["zero", "one", "two"]),
        (2, "b"): (TableMeta.from_table(T1, "b", writeable=["num", "text"]),
                   [T1([], []), T1([1.5], ["p"]), T1([1.5, 2.5], ["p", "q"])]),
        (3, "a"): (StringMeta("a"), ["", "s1", "s2"]),
        (3, "b"): (NumberArrayMeta("float64", "b"), [[], [0.1], [0.1, 0.3]]),
        (3, "d"): (NumberMeta("float32", "d"), [0, 0.1, 3.25]),
    }
    return t.get((c, f)) or (NumberMeta("int32", f), [0, 1, 2])


def plain(v):
    return json.loads(json.dumps(v, default=lambda o: o.to_dict() if hasattr(o, "to_dict") else
                                 (o.item() if hasattr(o, "item") else list(o))))


CFG = dict(a=1, b=2, s=1, d=1)


class Settings(Part):
    def prep(self, c, d):
        self.c, self.d, self.at, self.refuse = c, d, {}, False
        return self

    def make(self, f, v=0):
        meta, vals = kinds(self.c, f)
        if f in CFG:
            meta.set_tags([config_tag(CFG[f])])
        at = meta.create_attribute_model(vals[v])
        self.at[f] = at
        return at, lambda value, f=f: self.write(f, value)

    def write(self, f, value):
        if self.refuse:
            raise ValueError("refused")
        self.d.writes.append((self.c, f))
        self.at[f].set_value(value)
        if f == "a":
            self.at["b"].set_value(kinds(self.c, "b")[1][0])

    def setup(self, registrar):
        super().setup(registrar)
        for f in "abns":
            registrar.add_attribute_model(f, *self.make(f))
        registrar.add_method_model(self.m)

    def m(self):
        pass


class OwnPart(Part):
    """a plain part of the manager with a setting, which can also fail to save"""
    fail = False

    def setup(self, registrar):
        super().setup(registrar)
        self.at = NumberMeta("int32", "own", tags=[config_tag()]).create_attribute_model(0)
        registrar.add_attribute_model("own1", self.at, self.at.set_value)
        registrar.hook(SaveHook, self.on_save)

    @add_call_types
    def on_save(self, context: AContext):
        context.sleep(0)
        if self.fail:
            raise ValueError("cannot save")
        return {}


@no_save("s")
class Child(ChildPart):
    own = None

    def setup(self, registrar):
        super().setup(registrar)
        if self.mri == "c2":
            self.own = NumberMeta("int32", "own2", tags=[config_tag()]).create_attribute_model(0)
            registrar.add_attribute_model("own2", self.own, self.own.set_value)


PART = {1: "A", 2: "B", 3: "C"}


def idx(kids, f="k"):
    """TLC turns functions over 1..n into lists"""
    return {i + 1: v for i, v in enumerate(kids)} if isinstance(kids, list) else {int(k): v for k, v in kids.items()}


class Driver:
    def __init__(self, init):
        self.dir = tempfile.mkdtemp(prefix="vfdesign")
        self.tdir = os.path.join(self.dir, "templates")
        self.cdir = os.path.join(self.dir, "config")
        os.mkdir(self.tdir)
        os.mkdir(self.cdir)
        self.writes = []
        self.proc = None
        self.dyn = True

    def close(self):
        try:
            if self.proc:
                self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def structure(self, p):
        kids, vis, x = idx(p["k"]), idx(p["vis"]), idx(p["x"])
        lay = {PART[c]: dict(x=x[c], y=10.0 * x[c], visible=vis[c]) for c in sorted(vis)}
        ch = {}
        for c, k in kids.items():
            ch[PART[c]] = {f: plain(kinds(c, f)[1][k[f]]) for f in "ab"}
        if p["d"] >= 0:
            ch["C"]["d"] = plain(kinds(3, "d")[1][p["d"]])
        return dict(attributes=dict(layout=lay, exports={self.src(r): r[1] for r in p["exps"]},
                                    own1=p["own"][0], own2=p["own"][1]), children=ch)

    def src(self, r):
        return "%s.%s" % (PART[r[0][0]], r[0][1])

    def boot(self, act):
        with open(os.path.join(self.tdir, "template_t.json"), "w") as f:
            json.dump(self.structure(act["t"]), f)
        if act["pre"]["d"] != -2:
            os.mkdir(os.path.join(self.cdir, "mgr"))
            with open(os.path.join(self.cdir, "mgr", "d1.json"), "w") as f:
                json.dump(self.structure(act["pre"]), f)
        self.proc = Process("p")
        self.kid = {}
        for c in (1, 2, 3):
            k = (StatefulController if c > 1 else BasicController)("c%d" % c)
            p = Settings("settings").prep(c, self)
            k.add_part(p)
            self.proc.add_controller(k)
            self.kid[c] = (k, p)
        self.add_dyn(0)
        self.m = ManagerController("mgr", config_dir=self.cdir, template_designs=self.tdir, initial_design=act["init"])
        self.ownp = OwnPart("own")
        self.m.add_part(self.ownp)
        self.kids = {}
        for c in (1, 2, 3):
            self.kids[c] = Child(PART[c], "c%d" % c, initial_visibility=True, stateful=c > 1)
            self.m.add_part(self.kids[c])
        self.proc.add_controller(self.m)
        self.proc.start()
        self.ctx = Context(self.proc)
        self.mod = []
        s = Subscribe(path=["mgr", "modified", "value"])
        s.set_callback(lambda r: self.mod.append(getattr(r, "value", None)))
        self.m.handle_request(s).wait(5)

    def add_dyn(self, v):
        k, p = self.kid[3]
        at, func = p.make("d", v)
        k.add_block_field("d", at, func, False)

    def put(self, mri, f, v):
        self.ctx.put([mri, f, "value"], v)

    def val(self, mri, f):
        return self.proc.get_controller(mri)._block[f].value

    def step(self, act):
        n = act["n"]
        self.writes = []
        err = None
        want_err = False
        try:
            if n == "boot":
                self.boot(act)
                self.writes = []
            elif n == "put":
                v = kinds(act["c"], act["f"])[1][act["v"]]
                self.put("c%d" % act["c"], act["f"], v)
            elif n == "drift":
                k, p = self.kid[act["c"]]
                with k.changes_squashed:
                    p.at["a"].set_value(kinds(act["c"], "a")[1][act["v"]])
                    p.at["b"].set_value(kinds(act["c"], "b")[1][act["w"]])
            elif n == "dyn":
                k, p = self.kid[3]
                if act["v"] < 0:
                    k._block.remove_endpoint("d")
                else:
                    self.add_dyn(act["v"])
            elif n == "layout":
                t = self.m.layout.value
                rows = [list(r) for r in t.rows()]
                for r in rows:
                    if r[0] == PART[act["c"]]:
                        r[2], r[3], r[4] = act["x"], 10.0 * act["x"], act["vis"]
                if act["x"] == 1:
                    rows = [r for r in rows if r[0] == PART[act["c"]]]
                self.put("mgr", "layout", LayoutTable.from_rows(rows))
            elif n == "exports":
                self.put("mgr", "exports", ExportTable([self.src(r) for r in act["e"]], [r[1] for r in act["e"]]))
            elif n == "own":
                self.put("mgr", "own%d" % act["i"], act["v"])
            elif n == "save":
                if act["name"]:
                    self.ctx.post(["mgr", "save"], dict(designName=act["name"]))
                else:
                    self.ctx.post(["mgr", "save"])
            elif n == "load":
                self.put("mgr", "design", act["name"])
            elif n == "savebad":
                want_err = True
                self.ctx.post(["mgr", "save"], dict(designName="template_t") if act["w"] == "template" else {})
            elif n == "savefail":
                want_err = True
                if act["w"] == "part":
                    self.ownp.fail = True
                    self.ctx.post(["mgr", "save"], dict(designName=act["name"]))
                else:
                    self.ctx.post(["mgr", "save"], dict(designName="no/such/place"))
            elif n == "loadbad":
                want_err = True
                f = os.path.join(self.cdir, "mgr", act["name"] + ".json")
                os.rename(f, f + ".bak")
                if act["w"] == "broken":
                    with open(f, "w") as o:
                        o.write(open(f + ".bak").read()[:-20])
                try:
                    self.put("mgr", "design", act["name"])
                finally:
                    os.rename(f + ".bak", f)
            elif n == "loadfail":
                want_err = True
                self.kid[act["c"]][1].refuse = True
                self.put("mgr", "design", act["name"])
            elif n == "reset":
                self.ctx.post(["mgr", "reset"])
            elif n == "cycle":
                self.ctx.post(["mgr", "disable"])
                self.ctx.post(["mgr", "reset"])
        except Exception as e:
            err = e
        if n != "boot":
            self.ownp.fail = False
            for k, p in self.kid.values():
                p.refuse = False
        settle(10)
        self.err = None
        if want_err and err is None:
            self.err = "%s did not fail" % n
        if not want_err and err is not None:
            self.err = "%s failed: %r" % (n, err)
        self.skipw = n in ("loadfail", "loadbad") or act.get("unk")

    def check(self, s):
        if not s:
            return None
        if self.err:
            return self.err
        b = self.m._block
        if b.state.value != s["st"]:
            return "state is %s, not %s (%s)" % (b.state.value, s["st"], b.health.value)
        if b.design.value != s["design"]:
            return "design is %r, not %r" % (b.design.value, s["design"])
        if set(b.design.meta.choices) != set(s["choices"]) or len(b.design.meta.choices) != len(set(b.design.meta.choices)):
            return "choices are %s" % (b.design.meta.choices,)
        if s["cmp"]:
            for f, key in (("a", "a"), ("b", "b"), ("n", "nn"), ("s", "s")):
                for c, v in idx(s[key]).items():
                    got, want = self.val("c%d" % c, f), kinds(c, f)[0].validate(kinds(c, f)[1][v])
                    if got != want:
                        return "child %d %s is %r, not %r" % (c, f, got, want)
            blk = self.kid[3][0]._block
            if ("d" in blk) != (s["d"] >= 0):
                return "d present: %s" % ("d" in blk)
            if s["d"] >= 0 and blk["d"].value != kinds(3, "d")[0].validate(kinds(3, "d")[1][s["d"]]):
                return "d is %r, not %r" % (blk["d"].value, s["d"])
            vis, x = idx(s["vis"]), idx(s["x"])
            want = [[PART[c], "c%d" % c, float(x[c]), 10.0 * x[c], vis[c]] for c in sorted(vis)]
            got = [list(r) for r in b.layout.value.rows()]
            if got != want:
                return "layout %s, not %s" % (got, want)
            got = [list(r) for r in b.exports.value.rows()]
            want = [[self.src(r), r[1]] for r in s["exps"]]
            if got != want:
                return "exports %s, not %s" % (got, want)
            own = [self.ownp.at.value, self.kids[2].own.value]
            if own != s["own"]:
                return "own settings %s, not %s" % (own, s["own"])
            if not self.skipw:
                w = [tuple(q) for q in s["w"]]
                if sorted(w) != sorted(self.writes):
                    return "writes %s, not %s" % (self.writes, w)
                for c in (1, 2, 3):
                    o = [CFG.get(f, 0) for k, f in self.writes if k == c]
                    if o != sorted(o):
                        return "restored in the wrong order: %s" % self.writes
            if s["mod"] != "any":
                m = b.modified
                if m.value != (s["mod"] == "yes"):
                    return "modified is %s, not %s (%s)" % (m.value, s["mod"], m.alarm.message)
                sev = AlarmSeverity.MINOR_ALARM if m.value else AlarmSeverity.NO_ALARM
                if m.alarm.severity != sev:
                    return "modified alarm %s" % m.alarm.severity
                if self.mod and self.mod[-1] != m.value:
                    return "subscriber was told modified=%s" % self.mod[-1]
        return None


def run_job(job, params):
    return replay_steps(lambda i: Driver(i), job, {})
