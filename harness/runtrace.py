"""Drives a real RunnableController through the commands of a behaviour of Runnable.tla, but with each
arriving after a given number of scheduler rounds instead of when all is settled; records a trace."""
import cothread
import runnable
from common import settle
from malcolm.core import Context


class Part(runnable.ScanPart):
    def go(self, context, ph, *args):
        d = self.drv
        p = "creset" if ph == "reset" and d.c.state.value == "Configuring" else ph
        d.event(e="begin", ph=p, p=self.n)
        try:
            super().go(context, ph, *args)
        finally:
            d.event(e="end", ph=p, p=self.n)


class Driver(runnable.Driver):
    PART = Part

    def __init__(self):
        self.trace = []
        self.on = False
        super().__init__()
        self.on = True

    def event(self, **e):
        if self.on:
            self.trace.append(e)

    def on_state(self, s):
        self.event(e="state", s=s)

    def call(self, op, f, *args):
        self.event(e="call", op=op)
        super().call(op, f, *args)
        self.event(e="ret", op=op, o=self.res[-1][1])


def run_job(job, params):
    d = Driver()
    try:
        for (act, _), k in zip(job["w"], job["k"]):
            n = act["n"]
            if n == "refused" or (n == "report" and not d.running):
                continue
            if n == "part" and (act["ph"], act["p"]) not in d.running:
                continue
            if n in ("configure", "reset") and d.calls:
                continue
            if n in d.calls:      # (the specification has one of each at a time)
                continue
            if n == "resume" and "run" not in d.calls:
                continue
            if n == "report" and d.c.progress_updates is None:
                continue
            d.SETTLE = k
            d.step(act)
        # let everything go
        for _ in range(40):
            for key in list(d.running):
                d.verdict[key] = True
                d.gates[key].put(True)
            d.gb.g.set_value(d.gb.g.value + 1)
            settle(30)
            if not d.running:
                break
        settle(60)
        d.event(e="idle")
        tr = list(d.trace)
        d.on = False
        return dict(ok=True, trace=tr, steps=len(tr))
    finally:
        d.on = False
        try:
            d.close()
        except Exception:       # what is left behind is judged by the trace
            pass
