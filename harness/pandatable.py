"""Replays behaviours of PandATable.tla into PandABlocksClient and PandATablePart against a stand-in device."""
import random
import numpy as np
from malcolm.core import Process, Queue, TableMeta, TimeStamp
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient
from malcolm.modules.pandablocks.parts.pandatablepart import PandATablePart
from common import replay_steps
from panda import Sock

LABELS = ["Zero", "One", "Two state", "3"]


class Device(Sock):
    """Answers at once, in arbitrary pieces"""
    def __init__(self, drv):
        Sock.__init__(self)
        self.drv = drv
        self.rnd = random.Random(3)

    def sendall(self, data):
        Sock.sendall(self, data)
        while True:
            c = self.command()
            if c is None:
                return
            b = ("\n".join(self.drv.answer(c)) + "\n").encode("utf-8")
            while b:
                k = self.rnd.choice([1, 2, 7, len(b)])
                self.rx.Signal(b[:k])
                b = b[k:]


def ints(row, w):
    return [sum(1 << (b - 32 * i) for b in row if b // 32 == i) for i in range(w)]


class Driver:
    def __init__(self, init):
        self.cols, self.ints, self.w = [], [], 1
        self.part = self.desc = None
        self.got = None
        self.process = Process("p")
        self.process.start()
        self.client = PandABlocksClient("h", 1, Queue)
        self.client.start(self.process.spawn, lambda *a, **k: Device(self))

    def close(self):
        self.client.stop()
        self.process.stop(timeout=2)

    def answer(self, c):
        """what the device says"""
        multi = lambda ls: ["!" + x for x in ls] + ["."]
        d = {}
        for x in self.desc or []:
            d[x["b"]] = x["fs"]
        if c == "BLK.T.FIELDS?":
            return multi(["%d:%d C%d%s" % (x["hi"], x["lo"], j, {"u": "", "s": " int", "e": " enum"}[x["k"]])
                          for j, x in enumerate(self.cols)])
        if c.startswith("*DESC."):
            return ["OK =About " + c[6:-1]]
        if c == "*BLOCKS?":
            bs = list(d)
            self.rnd.shuffle(bs)
            return multi(["%s %d" % (b, len(b)) for b in bs])
        if c.startswith("*ENUMS.BLK.T[]."):
            return multi(LABELS)
        if c.startswith("*ENUMS."):
            b, f = c[7:-1].split(".", 1)
            for x in d.get(b, []):
                if {"F": x["f"], "C": x["f"] + ".CAPTURE"}.get(x["l"]) == f:
                    return multi([c[7:-1] + str(i) for i in range(int(f[1]))])
        if c.endswith(".*?") and c[:-3] in d:
            ls = ["%s %d %s %s" % (x["f"], j, x["t"][0], x["t"][1]) for j, x in enumerate(d[c[:-3]])]
            self.rnd.shuffle(ls)
            return multi([l.strip() for l in ls])
        if c == "PCAP.*?":
            return ["."]
        if c.startswith("PCAP.") and c.endswith(".BITS?"):
            return multi(["bit of " + c[:-6], "other"])
        if c.startswith("BLK.T<"):
            self.ints = [int(x) for x in c.split("|")[1:]]
            return ["OK"]
        return ["ERR unknown command " + c]

    def mk(self):
        if self.part is None:
            self.part = PandATablePart(self.client, TableMeta("A table", writeable=True), "BLK", "T")
        return self.part

    def number(self, c, bits):
        v = sum(1 << b for b in bits)
        n = c["hi"] - c["lo"] + 1
        if c["k"] == "e":
            return LABELS[v]
        if n == 1:
            return bool(v)
        return v - (1 << n) if c["k"] == "s" and v >> (n - 1) else v

    def step(self, act):
        n = act["n"]
        self.got = None
        if n == "build":
            self.cols.append(act["c"])
        elif n == "change":
            self.mk()
            self.w = act["w"]
            self.ints = [i for r in act["d"] for i in ints(r, self.w)]
            self.part.handle_change([str(i) for i in self.ints], TimeStamp())
        elif n == "write":
            p = self.mk()
            self.w = act["w"]
            cs = {"c%d" % j: [self.number(c, r[j]) for r in act["t"]] for j, c in enumerate(self.cols)}
            p.set_field(p.meta.validate(p.meta.table_cls(**cs)))
            p.handle_change([str(i) for i in self.ints], TimeStamp())
        elif n == "describe":
            self.q = act["q"]

    def check(self, st):
        if st is None:
            return None
        if "desc" in st:
            self.desc = st["desc"]
            self.rnd = random.Random(self.q)
            got = [[b, x.number, x.description, [[f, y.field_type, y.field_subtype, y.description, list(y.labels)]
                    for f, y in x.fields.items()]] for b, x in self.client.get_blocks_data().items()]
            want = []
            for x in self.desc:
                b, fs = x["b"], []
                for f in x["fs"]:
                    p = {"F": f["f"], "C": f["f"] + ".CAPTURE"}.get(f["l"])
                    fs.append([f["f"], f["t"][0], f["t"][1], "About %s.%s" % (b, f["f"]),
                               ["%s.%s%d" % (b, p, i) for i in range(int(f["f"][1]))] if p else []])
                want.append([b, len(b), "About " + b, fs])
            if got != want:
                return "description %r, model %r" % (got, want)
            got = {k: list(v) for k, v in self.client.get_pcap_bits_fields().items()}
            want = {"PCAP.%s.CAPTURE" % f: ["bit of PCAP." + f, "other"] for f in st["bits"]}
            if got != want:
                return "captured bits %r, model %r" % (got, want)
        if self.part is None:
            return None
        want = [i for r in st["dev"] for i in ints(r, self.w)]
        if self.ints != want:
            return "rows on the device %r, model %r" % (self.ints, want)
        v = self.part.attr.value
        for j, c in enumerate(self.cols):
            want = [self.number(c, b) for b in st["tab"][j]]
            got = v["c%d" % j]
            got = [x.item() if isinstance(x, np.generic) else x for x in got]
            if got != want:
                return "column %d %r: %r, model %r" % (j, c, got, want)
        return None


def run_job(job, params):
    return replay_steps(Driver, job, None)
