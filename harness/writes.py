"""Replays behaviours of Writes.tla into a real block with one attribute of every kind and a method."""
import json
import zlib
from enum import Enum
from typing import Sequence, Union
import numpy as np
from annotypes import Anno, Array, add_call_types
from malcolm.core import (AbortedError, AlarmSeverity, BooleanArrayMeta, BooleanMeta, ChoiceArrayMeta, ChoiceMeta, Context, Error,
                          NumberArrayMeta, NumberMeta, Part, Post, Process, Put, Queue, Return, StringArrayMeta,
                          StringMeta, Subscribe, Table, TableMeta, TimeoutError, Update)
from malcolm.modules.builtin.controllers import BasicController
from common import replay_steps, settle

with Anno("numbers"):
    ANums = Union[Array[np.int32]]
with Anno("texts"):
    ATexts = Union[Array[str]]


class T1(Table):
    def __init__(self, num: Union[ANums, Sequence[int]], txt: Union[ATexts, Sequence[str]]):
        self.num = ANums(num)
        self.txt = ATexts(txt)


class T2(Table):
    """another table: its columns are text"""
    def __init__(self, num: Union[ATexts, Sequence[str]], txt: Union[ATexts, Sequence[str]]):
        self.num = ATexts(num)
        self.txt = ATexts(txt)


def table_object(v, how):
    """the same columns as an object, if they can be put in one"""
    if not (isinstance(v, dict) and set(v) == {"num", "txt"} and all(isinstance(c, list) for c in v.values())):
        return v
    if any(not isinstance(x, str) for x in v["txt"]) or any(type(x) is not (int if how == "obj" else str) for x in v["num"]):
        return v
    return (T1 if how == "obj" else T2)(**v)


def array_object(v):
    """the same items as an array object, backed by numpy or not"""
    if not isinstance(v, list) or not v or len({type(x) for x in v}) != 1 or type(v[0]) not in (bool, int, float, str):
        return v
    if type(v[0]) is str:
        return Array[str](v)
    if any(abs(x) >= 2 ** 31 for x in v):
        return v
    typ = {bool: bool, int: [np.int32, int, np.int16][len(v) % 3 if abs(max(v)) < 30000 and abs(min(v)) < 30000 else 1], float: [float, np.float32][len(v) % 2]}[type(v[0])]
    return Array[typ](np.array(v, dtype=typ))


class YChoice(Enum):
    A = "a"
    B = "b"


with Anno("x"):
    AX = Union[np.int32]
with Anno("y"):
    AY = YChoice
with Anno("z"):
    AZ = Union[Array[str]]
with Anno("r"):
    AR = float


def meta_of(k):
    if k == "bool":
        return BooleanMeta(k)
    if k == "choice":
        return ChoiceMeta(k, ["a", "b"])
    if k == "str":
        return StringMeta(k)
    if k == "boolarr":
        return BooleanArrayMeta(k)
    if k == "choicearr":
        return ChoiceArrayMeta(k, ["a", "b"])
    if k == "strarr":
        return StringArrayMeta(k)
    if k == "table":
        return TableMeta.from_table(T1, k, writeable=["num", "txt"])
    if k.endswith("arr"):
        return NumberArrayMeta(k[:-3], k)
    return NumberMeta(k, k)


class Boom(Exception):
    pass


NUM = ["int8", "uint8", "int16", "int32", "int64", "uint32", "float32", "float64"]
KINDS = ["bool", "choice"] + NUM + ["str", "boolarr", "choicearr", "int32arr", "float64arr", "strarr", "table"]


class Fields(Part):
    def prep(self, d):
        self.d, self.at = d, {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for k in KINDS:
            self.at[k] = meta_of(k).create_attribute_model()
            registrar.add_attribute_model("a" + k, self.at[k], lambda v, k=k: self.write(k, v))
        self.meth = registrar.add_method_model(self.m)

    def write(self, k, v):
        self.d.seen.append((k, v))
        if self.d.boom:
            raise self.d.boom
        self.at[k].set_value(v)

    @add_call_types
    def m(self, x: AX, y: AY = YChoice.A, z: AZ = ()) -> AR:
        self.d.seen.append(("m", (x, y, z)))
        if self.d.boom:
            raise self.d.boom
        return float(x)


def concrete(v):
    t = v["t"]
    if t == "none":
        return None
    if t == "bool":
        return bool(v["i"])
    if t == "int":
        return v["i"]
    if t == "float":
        return v["i"] / 4.0
    if t == "edge":
        return v["i"] * 2 ** 40
    if t == "str":
        return v["s"]
    if t == "list":
        return [concrete(x) for x in v["l"]]
    return {p["l"][0]["s"]: concrete(p["l"][1]) for p in v["l"]}


def typed(k, v):
    """does the converted value have the declared type?"""
    if k == "bool":
        return type(v) is bool or isinstance(v, np.bool_)
    if k == "choice":
        return v in ("a", "b") if isinstance(v, str) else isinstance(v, YChoice)
    if k == "str":
        return isinstance(v, str)
    if k in NUM:
        return isinstance(v, getattr(np, k))
    if k == "table":
        return isinstance(v, Table) and typed("int32arr", v.num) and typed("strarr", v.txt) and len(v.num) == len(v.txt)
    if not isinstance(v, Array):
        return False
    a = v.seq
    if isinstance(a, np.ndarray):
        if a.ndim != 1:
            return False
        if k in ("boolarr", "int32arr", "float64arr"):
            return a.dtype == np.dtype(k[:-3])
    if k == "boolarr":
        return all(isinstance(x, (bool, np.bool_)) for x in a)
    if k == "int32arr":
        return all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in a)
    if k == "float64arr":
        return all(isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in a)
    return all(isinstance(x, (str, Enum)) for x in a)


def same(c, v, given=None):
    """is v what the specification says?"""
    t = c["t"]
    if isinstance(v, Enum):
        v = v.value
    if t == "open":
        return True
    if t == "num":
        return float(v) * 4 == c["i"]
    if t == "bool":
        return int(v) == c["i"]
    if t == "str":
        return v == c["s"]
    if t == "strof":
        return given is None or v == given
    if t == "list":
        return len(v) == len(c["l"]) and all(same(a, b) for a, b in zip(c["l"], v))
    if t == "table":
        return same(c["l"][0], v.num) and same(c["l"][1], v.txt)
    return False


class Driver:
    def __init__(self, init, nboom=0):
        self.seen, self.boom = [], None
        self.nboom = nboom
        self.proc = Process("p")
        self.c = BasicController("b")
        self.part = Fields("fields").prep(self)
        self.c.add_part(self.part)
        self.proc.add_controller(self.c)
        self.proc.start()
        self.ctx = Context(self.proc)
        self.view = self.c.block_view(self.ctx)
        self.updates = []
        s = Subscribe(path=["b"])
        s.set_callback(lambda r: self.updates.append(r) if isinstance(r, Update) else None)
        self.c.handle_request(s).wait(5)
        self.text = ""
        self.prev = {}

    def close(self):
        self.proc.stop(timeout=5)

    def raw(self, req):
        q = Queue()
        req.set_callback(q.put)
        self.c.handle_request(req)
        r = q.get(timeout=10)
        if isinstance(r, Error):
            raise r.message if isinstance(r.message, Exception) else RuntimeError(r.message)
        assert isinstance(r, Return)
        return r.value

    def step(self, act):
        n = act["n"]
        self.act = act
        self.seen, self.boom = [], None
        if act.get("boom"):
            self.nboom += 1
            self.boom = [ValueError, AssertionError, RuntimeError, KeyError, TypeError, AbortedError, TimeoutError, Boom][self.nboom % 8]("boom")
        self.exc, self.ret = None, None
        self.nup = len(self.updates)
        self.prev = {k: self.part.at[k].value for k in KINDS}
        try:
            if n == "put":
                v = self.given = concrete(act["v"])
                k = "a" + act["k"]
                if act["how"] in ("obj", "other"):
                    v = table_object(v, act["how"])
                if act["how"] == "arr":
                    v = array_object(v)
                if act["how"] == "view":
                    self.view[k].put_value(v)
                else:
                    self.ret = self.raw(Put(path=["b", k, "value"], value=v, get=act["how"] == "get"))
            elif n == "post":
                p = concrete(act["v"])
                if act["how"] == "view":
                    pos = []
                    for k in ("x", "y", "z"):
                        if k not in p or list(p)[0] != k:
                            break
                        pos.append(p.pop(k))
                    self.ret = self.view.m(*pos, **p)
                else:
                    self.ret = self.raw(Post(path=["b", "m"], parameters=p))
            elif n == "wrong":
                w = act["w"]
                if w == "putnone":
                    self.raw(Put(path=["b", "nothing", "value"], value=1))
                elif w == "putmethod":
                    self.raw(Put(path=["b", "m", "value"], value=1))
                elif w == "postnone":
                    self.raw(Post(path=["b", "nothing"]))
                elif w == "postattr":
                    self.raw(Post(path=["b", "aint32"]))
                else:
                    self.view.m(1, "a", ["q"], 5)
            elif n == "writeable":
                (self.part.meth if act["k"] == "m" else self.part.at[act["k"]]).meta.set_writeable(act["b"])
        except Exception as e:
            self.exc = e
        self.boom = None
        settle(3)

    def check(self, s):
        if not s:
            return None
        act, n = self.act, self.act["n"]
        what = "%s of %s%s" % (n, act.get("k", act.get("w", "")), " %r" % concrete(act["v"]) if "v" in act else "")
        err = self.exc is not None
        if s["res"] != "any" and err != (s["res"] == "err"):
            return "%s: %s" % (what, "failed: %r" % self.exc if err else "was not refused")
        c = act.get("c")
        # what the function saw
        runs = n in ("put", "post") and act["wr"] and c["t"] != "bad"
        if runs and c["t"] == "open":
            if len(self.seen) > 1 or (not self.seen and not err):
                return "%s: the function ran %d times" % (what, len(self.seen))
        elif len(self.seen) != (1 if runs else 0):
            return "%s: the function ran %d times" % (what, len(self.seen))
        for k, v in self.seen:
            if k == "m":
                x, y, z = v
                if not (typed("int32", x) and isinstance(y, YChoice) and (typed("strarr", z) or z == ())):
                    return "%s: the function saw %r" % (what, v)
                if c["t"] != "open" and not all(same(a, b) for a, b in zip(c["l"], v)):
                    return "%s: the function saw %r" % (what, v)
            else:
                if k != act["k"] or not typed(k, v):
                    return "%s: the function saw %r for %s" % (what, v, k)
                if not same(c, v, str(self.given)):
                    return "%s: the function saw %r" % (what, v)
        if n == "put" and s["res"] == "ok" and c["t"] == "strof":
            self.text = str(self.given)
        # what the block holds
        for k, a in s["val"]:
            v = self.part.at[k].value
            if not typed(k, v):
                return "%s: %s holds %r" % (what, k, v)
            if not same(a, v, self.text):
                return "%s: %s holds %r" % (what, k, v)
            if err and not (v is self.prev[k] or np.all(v == self.prev[k])):
                return "%s: refused, but %s changed to %r" % (what, k, v)
        if n == "put" and not err and act["how"] == "get" and not (self.ret is self.part.at[act["k"]].value or np.all(self.ret == self.part.at[act["k"]].value)):
            return "%s: returned %r" % (what, self.ret)
        if n == "put" and not err and act["how"] not in ("get", "view") and self.ret is not None:
            return "%s: returned %r" % (what, self.ret)
        # a refused request changes nothing
        if n in ("put", "wrong") and err and len(self.updates) != self.nup:
            return "%s: subscribers were told of a change" % what
        if n == "post" and not self.seen and len(self.updates) != self.nup:
            return "%s: subscribers were told of a change" % what
        # the method's log
        lg = s["log"]
        if lg["known"]:
            m = self.part.meth
            took, ret = m.took, m.returned
            if lg["took"]:
                if list(took.value) != ["x", "y", "z"]:
                    return "%s: took %r" % (what, took.value)
                for (k, kind), a in zip((("x", "int32"), ("y", "choice"), ("z", "strarr")), lg["took"]):
                    if not typed(kind, took.value[k]) or not same(a, took.value[k]):
                        return "%s: recorded %s=%r" % (what, k, took.value[k])
                if list(took.present) != [k for k in "xyz" if k in lg["present"]]:
                    return "%s: recorded present %s" % (what, took.present)
                if float(ret.value["return"]) * 4 != lg["ret"]:
                    return "%s: recorded return %r" % (what, ret.value)
                if list(ret.present) != ([] if lg["failed"] else ["return"]):
                    return "%s: recorded return present %s" % (what, ret.present)
                sev = AlarmSeverity.MAJOR_ALARM if lg["failed"] else AlarmSeverity.NO_ALARM
                if ret.alarm.severity != sev or (lg["failed"] and "boom" not in ret.alarm.message):
                    return "%s: recorded alarm %s" % (what, ret.alarm.to_dict())
            elif list(took.present) or list(ret.present):
                return "%s: a call was recorded" % what
        if n == "post" and s["res"] == "ok" and float(self.ret) * 4 != c["l"][0]["i"]:
            return "%s: returned %r" % (what, self.ret)
        return None


def run_job(job, params):
    # which kinds of exception this history raises depends on the history alone
    kind = zlib.crc32(json.dumps(job, sort_keys=True).encode())
    return replay_steps(lambda i: Driver(i, kind), job, {})
