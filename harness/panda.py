"""Replays behaviours of PandA.tla into the real PandABlocksClient over a stand-in for its socket."""
import random
import cothread
from malcolm.core import Process, Queue
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient
from common import replay_steps, settle

UNI = {"U": "\u00b5m \u00e9 \u20ac"}


def text(v):
    return UNI.get(v, v)


class Sock:
    """The device's end is driven by the test"""
    def __init__(self):
        self.rx = cothread.EventQueue()
        self.rest = b""
        self.sent = ""
        self.closed = False

    def connect(self, addr):
        pass

    def sendall(self, data):
        self.sent += bytes(data).decode("utf-8")

    def send(self, data):
        self.sendall(data)
        return len(data)

    def recv(self, n):
        if not self.rest:
            if self.closed:
                return b""
            self.rest = self.rx.Wait()
        r, self.rest = self.rest[:n], self.rest[n:]
        return r

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        self.closed = True
        self.rx.Signal(b"")

    def close(self):
        pass

    def command(self):
        """take the next whole command that was sent, or None"""
        if "\n" not in self.sent:
            return None
        line, rest = self.sent.split("\n", 1)
        if line.endswith("<") and "=" not in line:
            if rest.startswith("\n"):
                body, self.sent = "", rest[1:]
            elif "\n\n" in rest:
                body, self.sent = rest.split("\n\n", 1)
            else:
                return None
            return line + "".join("|" + x for x in body.split("\n") if x)
        self.sent = rest
        return line


class Driver:
    UNITS = 3

    def __init__(self, init):
        self.process = Process("p")
        self.process.start()
        self.client = PandABlocksClient("h", 1, Queue)
        socks = []

        def mk(*a, **k):
            socks.append(Sock())
            return socks[-1]
        self.client.start(self.process.spawn, mk)
        self.sock = socks[0]
        self.rnd = random.Random(1)
        self.stream = []
        self.res, self.open = [], set()
        self.problem = None

    def close(self):
        self.client.stop()
        self.process.stop(timeout=2)

    def call(self, i, f, *args):
        try:
            r = dict(ok=True)
            v = f(*args)
            if v is not None:
                r["v"] = v
        except ValueError:
            r = dict(ok=False)
        except Exception as e:
            r = dict(ok="%s: %s" % (type(e).__name__, e))
        self.open.discard(i)
        self.res.append([i, r])

    def changes(self, e):
        return list(self.client.get_changes(include_errors=True) if e else self.client.get_changes())

    def start(self, i, f, *args):
        self.open.add(i)
        cothread.Spawn(self.call, i, f, *args)

    def reply(self, r):
        if r["k"] == "ok":
            ls = ["OK"]
        elif r["k"] == "err":
            ls = ["ERR No such field"]
        elif r["k"] == "val":
            ls = ["OK =" + text(r["v"])]
        else:
            ls = ["!" + self.line(x) for x in r["v"]] + ["."]
        for l in ls:
            b = (l + "\n").encode("utf-8")
            c = sorted(self.rnd.randrange(len(b)) for _ in range(self.UNITS - 1))
            for lo, hi in zip([0] + c, c + [len(b)]):
                self.stream.append(b[lo:hi])

    def line(self, x):
        if not isinstance(x, dict):
            return text(str(x))
        n = "BLK." + x["f"]
        return {"val": n + "=" + text(x.get("v", "")), "table": n + "<", "error": n + " (error)"}[x["k"]]

    def step(self, act):
        n = act["n"]
        self.res = []
        if n == "get":
            self.start(act["i"], self.client.get_field, "BLK", act["f"])
        elif n == "setm":
            s = act["s"]
            if len(s) == 1:
                self.start(act["i"], self.client.set_field, "BLK", s[0][0], text(s[0][1]))
            else:
                self.start(act["i"], self.client.set_fields, {"BLK." + f: text(v) for f, v in s})
        elif n == "stab":
            self.start(act["i"], self.client.set_table, "BLK", act["f"], act["v"])
        elif n == "list":
            self.start(act["i"], self.client.send_recv, "*LIST?\n")
        elif n == "chg":
            self.start(act["i"], self.changes, act["e"])
        elif n == "serve":
            m = act["m"]
            f = "BLK." + m["f"]
            want = {"get": f + "?", "gtab": f + "?", "set": f + "=" + text(str(m["v"])), "chg": "*CHANGES?", "list": "*LIST?",
                    "stab": f + "<" + "".join("|%d" % x for x in m["v"]) if m["c"] == "stab" else ""}[m["c"]]
            got = self.sock.command()
            if got != want:
                self.problem = "device was sent %r, model %r" % (got, want)
                return
            self.reply(act["r"])
        elif n == "deliver":
            us, self.stream = self.stream[:act["k"]], self.stream[act["k"]:]
            if act["cut"] > 5:
                for u in us:
                    if u:
                        self.sock.rx.Signal(u)
                        settle(2)
            else:
                u = b"".join(us)
                if u:
                    self.sock.rx.Signal(u)
        settle(12)

    def check(self, st):
        if st is None:
            return None
        if self.problem:
            return self.problem
        want = []
        for i, r in st["res"]:
            r = dict(r)
            if "t" in r:
                r = dict(ok=True, v=[text(z) for z in r["t"]])
            elif isinstance(r.get("v"), str):
                r["v"] = text(r["v"])
            elif "v" in r:
                r["v"] = [("BLK." + x["f"], {"val": text(x.get("v", "")) if x["k"] == "val" else None,
                          "table": None, "error": Exception,
                          "rows": [str(z) for z in x.get("v", [])] if x["k"] == "rows" else None}[x["k"]])
                          for x in r["v"]]
            want.append([i, r])
        key = lambda x: x[0]
        if sorted(self.res, key=key) != sorted(want, key=key):
            return "calls ended with %r, model %r" % (sorted(self.res, key=key), sorted(want, key=key))
        if self.open != set(st["open"]):
            return "calls in progress %r, model %r" % (self.open, st["open"])
        return None


def run_job(job, params):
    return replay_steps(Driver, job, None)
