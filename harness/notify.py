"""Replays behaviours of Notify.tla into a real Controller with real subscriptions."""
import contextlib, copy
import cothread
from annotypes import Anno, Array, Serializable, serialize_object
from typing import Union
from malcolm.core import (Alarm, Controller, Get, NumberMeta, Part, Process, Put, StringMeta,
                          Subscribe, Table, TableMeta, Unsubscribe, Update, Delta, Return, Error)
from malcolm.core.alarm import AlarmSeverity
from common import replay_steps, settle

with Anno("A"):
    AA = Union[Array[str]]
with Anno("B"):
    AB = Union[Array[str]]


class Tab(Table):
    def __init__(self, a: AA, b: AB) -> None:
        self.a = AA(a)
        self.b = AB(b)


def plain(o):
    """Deep copy into plain python (dicts, lists, scalars), keeping nothing mutable."""
    o = serialize_object(o)
    if isinstance(o, dict) or hasattr(o, "items"):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, Array):
        return [plain(x) for x in o.seq]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if hasattr(o, "tolist"):
        return o.tolist()
    return o


def bad_alarm():
    return Alarm(AlarmSeverity.MINOR_ALARM, message="bad")


class P(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.x = NumberMeta("int32", "x", label="L0").create_attribute_model(0)
        registrar.add_attribute_model("x", self.x, self.x.set_value)
        meta = TableMeta.from_table(Tab, "t")
        meta.elements["a"].set_label("L0")
        self.cols = {c: [AA(["0"]), AA(["1"])] for c in "ab"}
        self.t = meta.create_attribute_model(Tab(self.cols["a"][0], self.cols["b"][0]))
        registrar.add_attribute_model("t", self.t)


def proj_tree(st):
    """What the model says should be at each leaf, as checkers on plain values."""
    return st


def leafs(path, v):
    """Map a plain value found at `path` to the tuple of model leaves; None = malformed."""
    def sev(a):
        return 0 if a["severity"] == 0 else 1

    def xx(x):
        return [int(x["value"]), sev(x["alarm"]), int(x["meta"]["label"][1:])]

    def tt(t):
        return [int(t["a"][0]), int(t["b"][0])]

    def tl(t):
        return [int(t["meta"]["elements"]["a"]["label"][1:])]

    def dd(b):
        if "d" not in b:
            return [0, 0, 0]
        return [1, int(b["d"]["value"]), sev(b["d"]["alarm"])]
    if path == "":
        f = 1 if "d" in v["meta"]["fields"] else 0
        d = dd(v)
        if f != d[0]:
            return "meta.fields disagrees with the fields present"
        return xx(v["x"]) + tt(v["t"]["value"]) + tl(v["t"]) + d
    if path == "x":
        return xx(v)
    if path == "x.value":
        return [int(v)]
    if path == "x.alarm":
        return [sev(v)]
    if path == "x.timeStamp":
        return []
    if path == "x.meta":
        return [int(v["label"][1:])]
    if path == "x.meta.label":
        return [int(v[1:])]
    if path == "t":
        return tt(v["value"]) + tl(v)
    if path == "t.meta.elements.a.label":
        return [int(v[1:])]
    if path == "t.value":
        return tt(v)
    if path in ("t.value.a", "t.value.b"):
        return [int(v[0])]
    if path == "d":
        return [0, 0, 0] if v is None else [1, int(v["value"]), sev(v["alarm"])]
    if path == "d.value":
        return [0, 0] if v is None else [1, int(v)]
    if path == "d.alarm":
        return [0, 0] if v is None else [1, sev(v)]
    if path == "meta":
        return [1 if "d" in v["fields"] else 0]
    if path == "meta.fields":
        return [1 if "d" in v else 0]
    raise KeyError(path)


def proj(b, p):
    k = {"": ["xv", "xa", "xl", "ta", "tb", "tl", "dp", "dv", "da"], "x": ["xv", "xa", "xl"],
         "x.value": ["xv"], "x.alarm": ["xa"], "x.timeStamp": [], "x.meta": ["xl"],
         "x.meta.label": ["xl"], "t": ["ta", "tb", "tl"], "t.meta.elements.a.label": ["tl"], "t.value": ["ta", "tb"],
         "t.value.a": ["ta"], "t.value.b": ["tb"], "d": ["dp", "dv", "da"],
         "d.value": ["dp", "dv"], "d.alarm": ["dp", "da"], "meta": ["dp"], "meta.fields": ["dp"]}
    return [b[i] for i in k[p]]


class Mirror:
    """What a client of a difference subscription reconstructs."""

    def __init__(self):
        self.root = {"r": None}

    def apply(self, changes):
        for ch in changes:
            path = ["r"] + list(ch[0])
            d = self.root
            for k in path[:-1]:
                d = d[k]
            if len(ch) == 1:
                if len(path) == 1:
                    self.root["r"] = None
                else:
                    d.pop(path[-1])
            else:
                d[path[-1]] = plain(ch[1])


class Driver:
    def __init__(self, init):
        self.process = Process("p")
        self.c = Controller("mri")
        self.part = P("part")
        self.c.add_part(self.part)
        self.process.add_controller(self.c)
        self.process.start()
        self.d = None
        self.subs = {}
        self.resp = {}
        self.mirror = {}
        self.last = {}
        self.early = None
        self.n = 0
        self.cbs = [lambda r: self.put(0, r), lambda r: self.put(1, r)]

    def close(self):
        self.process.stop(timeout=5)

    def rid(self, i):
        # slots 1&4 share nothing, 2&3 the id, 1&3 and 2&4 the callback: a subscription is
        # identified by both together
        return 10 + i // 2

    def put(self, j, r):
        i = [k for k in range(1, 9) if k % 2 == j and self.rid(k) == r.id][0]
        # take a deep snapshot at delivery, as a client that sends it on would
        if isinstance(r, Update):
            self.resp.setdefault(i, []).append(("upd", r.id, plain(r.value)))
        elif isinstance(r, Delta):
            self.resp.setdefault(i, []).append(
                ("dlt", r.id, [[list(c[0])] + [plain(x) for x in c[1:]] for c in r.changes]))
        elif isinstance(r, Return):
            self.resp.setdefault(i, []).append(("ret", r.id, r.value))
        else:
            self.resp.setdefault(i, []).append(("err", r.id, str(getattr(r, "message", r))))

    def subscribe(self, i, path, delta):
        sub = Subscribe(id=self.rid(i), path=["mri"] + [p for p in path.split(".") if p], delta=delta)
        sub.set_callback(self.cbs[i % 2])
        self.subs[i] = sub
        self.c.handle_request(sub)

    def op(self, o):
        k, v, w = o["o"], o["v"], o["w"]
        x, t = self.part.x, self.part.t
        if k == "x":
            if self.n % 3 == 2 and not self.squashing:
                r = Put(id=99, path=["mri", "x"], value=v)
                r.set_callback(lambda r: None)
                self.c.handle_request(r)
                settle(6)
            else:
                x.set_value(v)
        elif k == "xk":
            x.set_value(v, alarm=bad_alarm() if w else Alarm.ok)
        elif k == "xa":
            x.set_alarm(bad_alarm() if v else Alarm.ok)
        elif k == "xl":
            x.meta.set_label("L%d" % v)
        elif k in ("ta", "tb"):
            c = k[1]
            cur = t.value
            new = AA([str(v)])
            t.set_value(Tab(new if c == "a" else cur.a, new if c == "b" else cur.b))
        elif k == "tl":
            t.meta.elements["a"].set_label("L%d" % v)
        elif k == "t":
            t.set_value(Tab(AA([str(v)]), AA([str(w)])))
        elif k == "ad":
            self.d = NumberMeta("int32", "d").create_attribute_model(v)
            self.c.add_block_field("d", self.d, None, False)
        elif k == "rd":
            self.c._block.remove_endpoint("d")
        elif k == "dv":
            self.d.set_value(v, alarm=bad_alarm() if w else Alarm.ok)
        else:
            raise KeyError(k)
        self.n += 1

    squashing = False

    def step(self, act):
        self.resp = {}
        self.early = None
        n = act["n"]
        if n == "sub":
            self.subscribe(act["i"], act["path"], act["delta"])
            self.mirror[act["i"]] = Mirror()
        elif n == "unsub":
            sub = self.subs.pop(act["i"])
            u = Unsubscribe(sub.id)
            u.set_callback(sub.callback)
            self.c.handle_request(u)
        elif n in ("chg", "chgsub"):
            ops = act["ops"]
            if n == "chg" and len(ops) == 1 and ops[0]["o"] not in ("ad", "rd"):
                self.op(ops[0])
            else:
                self.squashing = True
                class Oops(Exception):
                    pass
                with contextlib.suppress(Oops), self.c.changes_squashed:
                    self.op(ops[0])
                    if n == "chgsub":
                        self.mirror[act["i"]] = Mirror()
                        self.subscribe(act["i"], act["path"], act["delta"])
                        settle(6)
                    if len(ops) > 1:
                        with self.c.changes_squashed:
                            self.op(ops[1])
                    for o in ops[2:]:
                        self.op(o)
                    if self.resp:
                        self.early = "delivered before the group was complete: %r" % self.resp
                    if act.get("fail"):
                        raise Oops()
                self.squashing = False
        settle(8)

    def check(self, st):
        if self.early:
            return self.early
        b = st["s"]
        # the block itself, by Get
        got = {}
        g = Get(id=77, path=["mri"])
        g.set_callback(lambda r: got.setdefault("r", r))
        self.c.handle_request(g)
        settle(4)
        cur = plain(got["r"].value)
        if leafs("", cur) != proj(b, ""):
            return "block content %r, model %r" % (leafs("", cur), proj(b, ""))
        for i, sub in enumerate(st["sub"], 1):
            rs = self.resp.get(i, [])
            kind = sub.get("resp", "none")
            n = len(rs)
            if kind == "none" and n:
                return "slot %d: unexpected responses %r" % (i, rs[:2])
            if kind == "one" and n != 1:
                return "slot %d at %r: expected one notification, got %d: %r" % (i, sub["path"], n, rs[:3])
            if kind == "opt" and n > 1:
                return "slot %d: %d notifications for one group" % (i, n)
            if kind == "ret":
                if n != 1 or rs[0][0] != "ret" or rs[0][1] != self.rid(i):
                    return "slot %d: unsubscribe answered with %r" % (i, rs)
                continue
            if not sub["on"]:
                continue
            for k, rid, val in rs:
                if rid != self.rid(i):
                    return "slot %d: response id %r" % (i, rid)
                if k != ("dlt" if sub["delta"] else "upd"):
                    return "slot %d: response of kind %s (%r)" % (i, k, val)
                if k == "dlt":
                    try:
                        self.mirror[i].apply(val)
                    except Exception as e:
                        return "slot %d: difference %r cannot be applied: %r" % (i, val, e)
                    self.last[i] = self.mirror[i].root["r"]
                else:
                    self.last[i] = val
            # everything delivered so far equals the current state at that path
            p = sub["path"]
            want = cur
            for k in [q for q in p.split(".") if q]:
                want = want.get(k) if isinstance(want, dict) else None
            have = self.last.get(i)
            if isinstance(have, dict) and "typeid" not in have and isinstance(want, dict):
                want = {k: v for k, v in want.items() if k != "typeid"}
            try:
                lf = leafs(p, have)
            except Exception as e:
                return "slot %d at %r: delivered view %r malformed (%r)" % (i, p, have, e)
            if lf != proj(b, p):
                return "slot %d at %r: delivered view %r, block has %r" % (i, p, lf, proj(b, p))
            if have != want:
                return "slot %d at %r: delivered view %r differs from block %r" % (i, p, have, want)
        # do not evaluate deliveries twice
        self.resp = {}
        return None


def run_job(job, params):
    init = {"s": dict(xv=0, xa=0, xl=0, ta=0, tb=0, tl=0, dp=0, dv=0, da=0), "sub": []}
    return replay_steps(Driver, job, init)  # all behaviours start in the same state
