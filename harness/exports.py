"""Replays behaviours of Exports.tla into two real ManagerControllers, one on top of the other."""
import shutil, tempfile
import cothread
from typing import Sequence, Union
from annotypes import Anno, Array, add_call_types
from malcolm.core import (Alarm, AlarmSeverity, AlarmStatus, ChoiceMeta, Context, Delta, MethodMeta, MethodModel, NumberMeta, Part,
                          Process, StringMeta, Subscribe, Table, TableMeta, TimeStamp, config_tag, group_tag)
from malcolm.core.camel import camel_to_title
from malcolm.modules.builtin.controllers import BasicController, ManagerController
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable
import stateful  # noqa: F401  (keeps the manager from running sync)
from common import replay_steps, settle

with Anno("x"):
    AX = int
with Anno("y"):
    AY = int

with Anno("numbers"):
    ANums = Union[Array[float]]
with Anno("texts"):
    ATexts = Union[Array[str]]


class T1(Table):
    def __init__(self, num: Union[ANums, Sequence[float]], text: Union[ATexts, Sequence[str]]):
        self.num = ANums(num)
        self.text = ATexts(text)


VALS = dict(table=[T1([], []), T1([1.5], ["p"]), T1([1.5, 2.5], ["q", "r"])], num=[0, 5, -7], str=["", "a", "bb"], choice=["zero", "one", "two"])
TAGS = [[], ["widget:textinput"], [config_tag(1), group_tag("grp")]]
SEV = [AlarmSeverity.NO_ALARM, AlarmSeverity.MINOR_ALARM, AlarmSeverity.INVALID_ALARM]


def alarm(k):
    return Alarm.ok if k == 0 else Alarm(SEV[k], AlarmStatus.DEVICE_STATUS, "alarm %d" % k)


def meta_of(t):
    if t == "num":
        return NumberMeta("int32", "desc 0")
    if t == "str":
        return StringMeta("desc 0")
    if t == "table":
        return TableMeta.from_table(T1, "desc 0", writeable=["num", "text"])
    return ChoiceMeta("desc 0", VALS["choice"])


class Fields(Part):
    def prep(self, c, d):
        self.c, self.d, self.fields = c, d, {}
        return self

    def make(self, f, t):
        if t == "meth":
            model = MethodModel(meta=MethodMeta.from_callable(self.callee(f)))
            model.meta.set_description("desc 0")
            func = self.callee(f)
        else:
            model = meta_of(t).create_attribute_model(VALS[t][0])
            func = lambda v, f=f, t=t: self.write(f, t, v)  # noqa: E731
        model.meta.set_label("Label 0")
        self.fields[f] = model
        return model, func

    def callee(self, f):
        if self.c == 1:
            @add_call_types
            def m(x: AX) -> AY:
                self.d.check_refuse()
                self.d.got.append(((1, f), x))
                return x + 10
        else:
            def m():
                self.d.check_refuse()
                self.d.got.append(((2, f), None))
        return m

    def write(self, f, t, v):
        self.d.check_refuse()
        self.d.got.append(((self.c, f), v))
        cothread.Yield()
        self.fields[f].set_value(v)

    def setup(self, registrar):
        super().setup(registrar)
        for f, t in (("v", "num"), ("c", "choice"), ("m", "meth")):
            if f == "c" and self.c == 2:
                continue
            model, func = self.make(f, t)
            if t == "meth":
                self.d.late.append((self.c, f, model, func))
            else:
                registrar.add_attribute_model(f, model, func)


class Client:
    """keeps a copy of a block from the deltas it is sent"""

    def __init__(self, controller):
        self.doc, self.errors = None, []
        s = Subscribe(path=[controller.mri], delta=True)
        s.set_callback(self.on)
        controller.handle_request(s).wait(5)

    def on(self, r):
        if not isinstance(r, Delta):
            self.errors.append(repr(r))
            return
        for ch in plain(r.to_dict()["changes"]):
            p = ch[0]
            try:
                if not p:
                    self.doc = ch[1]
                    continue
                at = self.doc
                for k in p[:-1]:
                    at = at[k]
                if len(ch) == 1:
                    del at[p[-1]]
                else:
                    at[p[-1]] = ch[1]
            except Exception as e:
                self.errors.append("cannot apply %r: %r" % (ch, e))


def plain(o):
    if isinstance(o, dict) or hasattr(o, "items"):
        return {str(k): plain(v) for k, v in o.items()}
    if hasattr(o, "to_dict"):
        return plain(o.to_dict())
    if isinstance(o, (list, tuple)) or type(o).__name__ in ("ndarray", "Array"):
        return [plain(v) for v in o]
    if hasattr(o, "item"):
        return o.item()
    return o


def norm(d, label):
    d = plain(d)
    m = d["meta"]
    m["label"] = label
    m["tags"] = [t for t in m["tags"] if not t.startswith(("config:", "group:"))]
    m.pop("writeable", None)
    for k in ("took", "returned"):
        if k in d:
            d[k] = dict(value=d[k]["value"], present=d[k].get("present"))
    return d


class Driver:
    def __init__(self, init):
        self.dir = tempfile.mkdtemp(prefix="vfexports")
        self.got, self.refuse, self.late = [], False, []
        self.proc = Process("p")
        self.kid = {}
        for c in (1, 2):
            k = BasicController("c%d" % c)
            p = Fields("fields").prep(c, self)
            k.add_part(p)
            self.proc.add_controller(k)
            self.kid[c] = (k, p)
        for c, f, model, func in self.late:
            self.kid[c][0].add_block_field(f, model, func, False)
        self.m = {}
        for i in (1, 2):
            m = ManagerController("m%d" % i, config_dir=self.dir)
            for j in ((1, 2) if i == 1 else (3,)):
                m.add_part(ChildPart("P%d" % j, "c%d" % j if j < 3 else "m1", initial_visibility=True, stateful=j == 3))
            self.m[i] = m
            self.proc.add_controller(m)
        self.proc.start()
        self.ctx = Context(self.proc)
        settle(10)
        self.client = {i: Client(self.m[i]) for i in (1, 2)}
        self.err = None

    def close(self):
        try:
            self.proc.stop(timeout=5)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def check_refuse(self):
        if self.refuse:
            raise ValueError("refused")

    def field(self, q):
        return self.kid[q[0]][1].fields[q[1]]

    def table1(self, e):
        return ExportTable(["P%d.%s" % tuple(q) for q, n in e], [n for q, n in e])

    def step(self, act):
        n = act["n"]
        self.got = []
        self.res = None
        self.ret = None
        err = None
        self.refuse = bool(act.get("refuse"))
        try:
            if n == "set":
                f = self.field(act["q"])
                f.set_value(VALS[self.ty(f)][act["v"]], alarm=alarm(act["al"]))
            elif n == "alarm":
                self.field(act["q"]).set_alarm(alarm(act["al"]))
            elif n == "meta":
                self.set_meta(self.field(act["q"]), act["f"], act["k"])
            elif n == "burst":
                f = self.field(act["q"])
                with self.kid[act["q"][0]][0].changes_squashed:
                    f.set_value(VALS[self.ty(f)][act["v"]], alarm=alarm(act["al"]), ts=TimeStamp(100 + act["v"], 5))
                    self.set_meta(f, "de", act["k"])
                    self.set_meta(f, "tg", act["k"])
            elif n == "come":
                self.come(act)
            elif n in ("export", "race"):
                if n == "race":
                    f = self.field(act["q"])
                    vals = VALS[self.ty(f)]

                    def run():
                        for i in range(12):
                            f.set_value(vals[(act["v"] + 1 + i) % 3])
                            cothread.Yield()
                        f.set_value(vals[act["v"]])
                    t = cothread.Spawn(run)
                    for i in range(act["v"]):
                        cothread.Yield()
                self.ctx.put(["m1", "exports", "value"], self.table1(act["e"]))
                if n == "race":
                    t.Wait(10)
            elif n == "export2":
                self.ctx.put(["m2", "exports", "value"], ExportTable(["P3." + q for q, k in act["e"]], [k for q, k in act["e"]]))
            elif n == "show":
                i = act["i"]
                m = "m1" if i < 3 else "m2"
                self.ctx.put([m, "layout", "value"], LayoutTable(["P%d" % i], [""], [1.0], [2.0], [act["b"]]))
            elif n == "xput":
                blk = self.m[act["m"]]._block
                v = act["v"]
                if act["nm"] in blk and hasattr(blk[act["nm"]], "value"):
                    v = VALS[self.ty(blk[act["nm"]])][v]
                self.want = v
                self.ctx.put(["m%d" % act["m"], act["nm"], "value"], v)
            elif n == "xcall":
                self.ret = [self.call("m%d" % act["m"], act["nm"], act["v"])]
            elif n == "call":
                self.ret = [self.call("c%d" % act["q"][0], act["q"][1], act["v"])]
            elif n == "cycle":
                self.ctx.post(["m1", "disable"])
                f = self.field(act["q"])
                f.set_value(VALS[self.ty(f)][act["v"]])
                self.ctx.post(["m1", "reset"])
        except Exception as e:
            err = e
        self.refuse = False
        settle(15)
        self.exc = err
        self.act = act

    def call(self, mri, name, v):
        blk = self.proc.get_controller(mri)._block
        args = {}
        if name in blk and hasattr(blk[name].meta, "takes") and "x" in blk[name].meta.takes.elements:
            args = dict(x=v)
        return self.ctx.post([mri, name], args)

    def ty(self, f):
        return {"malcolm:core/NumberMeta:1.0": "num", "malcolm:core/StringMeta:1.0": "str",
                "malcolm:core/ChoiceMeta:1.0": "choice", "malcolm:core/TableMeta:1.0": "table"}[f.meta.typeid]

    def set_meta(self, f, what, k):
        if what == "de":
            f.meta.set_description("desc %d" % k)
            if hasattr(f.meta, "elements"):
                f.meta.elements["num"].set_description("numbers %d" % k)
            if hasattr(f.meta, "takes") and "x" in f.meta.takes.elements:
                f.meta.takes.elements["x"].set_description("argument %d" % k)
            if hasattr(f.meta, "choices") and k:
                f.meta.set_choices(VALS["choice"] + ["more %d" % k])
        elif what == "tg":
            keep = [t for t in f.meta.tags if t.startswith("method:")]
            f.meta.set_tags(keep + TAGS[k])
        else:
            f.meta.set_label("Label %d" % k)

    def come(self, act):
        c, f = act["q"]
        k, p = self.kid[c]
        there = f in k._block
        if act["t"] == "none":
            k._block.remove_endpoint(f)
        elif not there:
            k.add_block_field(f, *p.make(f, act["t"]), False)
        elif act["sq"]:
            with k.changes_squashed:
                k._block.remove_endpoint(f)
                k.add_block_field(f, *p.make(f, act["t"]), False)
        else:
            k._block.remove_endpoint(f)
            k.add_block_field(f, *p.make(f, act["t"]), False)

    OWN = None

    def check(self, s):
        if not s:
            self.own = {i: set(self.m[i]._block) for i in (1, 2)}
            return None
        act = self.act
        if s["res"] == "ok" and self.exc is not None:
            return "%s failed: %r" % (act["n"], self.exc)
        if s["res"] == "err" and self.exc is None:
            return "%s did not fail" % act["n"]
        want = []
        for q, v in s["got"]:
            q = tuple(q)
            if act["n"] == "xput":
                v = self.want
            else:
                v = v if q[0] == 1 else None
                ret = [v + 10 if q[0] == 1 else None]
                if [plain(r) or None for r in self.ret] != ret:
                    return "call returned %s, not %s" % (self.ret, ret)
            want.append((q, v))
        if self.got != want:
            return "source got %s, not %s" % (self.got, want)
        for i, key in ((1, "f1"), (2, "f2")):
            blk = self.m[i]._block
            names = {n for n, q, r in s[key]}
            extra = set(blk) - self.own[i]
            if extra != names:
                return "manager %d has the exports %s, not %s" % (i, sorted(extra), sorted(names))
            if set(blk.meta.fields) != set(blk) - {"meta"}:
                return "manager %d lists the fields %s" % (i, blk.meta.fields)
            for n, q, r in s[key]:
                src = self.kid[q[0]][0]._block[q[1]] if i == 1 else self.m[1]._block[q]
                label = camel_to_title(n)
                got, exp = norm(blk[n], "?"), norm(src, "?")
                if got != exp:
                    return "manager %d export %s differs from its source: %s, not %s" % (i, n, got, exp)
                if blk[n].meta.label != label:
                    return "label of %s is %r" % (n, blk[n].meta.label)
                if r["ty"] != "meth" and any(t.startswith(("config:", "group:")) for t in blk[n].meta.tags):
                    return "tags of %s are %s" % (n, blk[n].meta.tags)
                if r["ty"] != "meth":
                    v = VALS[r["ty"]][r["v"]]
                    if blk[n].value != v or blk[n].alarm.severity != SEV[r["al"]]:
                        return "%s is %r %s, not %r %s" % (n, blk[n].value, blk[n].alarm.severity, v, r["al"])
                if blk[n].meta.description != "desc %d" % r["de"]:
                    return "description of %s is %r" % (n, blk[n].meta.description)
            c = self.client[i]
            if c.errors:
                return "client of manager %d: %s" % (i, c.errors[0])
            if plain(c.doc) != plain(blk):
                a, b = plain(c.doc), plain(blk)
                ks = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
                return "client of manager %d sees %s as %s, not %s" % (
                    i, ks, [a.get(k) for k in ks], [b.get(k) for k in ks])
        return None


def run_job(job, params):
    return replay_steps(lambda i: Driver(i), job, {})
