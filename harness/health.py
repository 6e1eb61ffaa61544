"""Replays behaviours of Health.tla into a StatefulController with parts reporting HealthInfos."""
import cothread
from annotypes import add_call_types
from malcolm.core import Alarm, AlarmSeverity, AlarmStatus, Context, Part, Process, Subscribe, TimeStamp
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import DisableHook, ResetHook
from malcolm.modules.builtin.infos import HealthInfo
from common import replay_steps, settle


class P(Part):
    fail = None

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook([ResetHook, DisableHook], self.on)

    def on(self):
        if self.fail is not None:
            raise ValueError(self.fail)


SEV = [AlarmSeverity.NO_ALARM, AlarmSeverity.MINOR_ALARM, AlarmSeverity.MAJOR_ALARM,
       AlarmSeverity.INVALID_ALARM, AlarmSeverity.UNDEFINED_ALARM]


class Driver:
    def __init__(self, init):
        self.process = Process("p")
        self.c = StatefulController("c")
        self.parts = [P("p%d" % i) for i in range(1, 5)]
        for p in self.parts:
            self.c.add_part(p)
        self.process.add_controller(self.c)
        self.process.start()
        self.ctx = Context(self.process)
        self.seen = []
        s = Subscribe(path=["c", "health"])
        s.set_callback(lambda r: self.seen.append(r.value))
        self.c.handle_request(s).wait(5)
        self.n = 0

    def close(self):
        self.process.stop(timeout=5)

    def alarm(self, a):
        if a["sev"] == 0:
            self.n += 1
            return [Alarm.ok, Alarm(), Alarm(AlarmSeverity.NO_ALARM, AlarmStatus.NO_STATUS, "was bad")][self.n % 3]
        return Alarm(SEV[a["sev"]], AlarmStatus.DEVICE_STATUS, a["msg"])

    def report(self, p, a):
        part = self.parts[p - 1]
        if self.n % 2:
            part.registrar.report(HealthInfo(self.alarm(a)))
        else:
            part.registrar.report(HealthInfo(self.alarm(a), TimeStamp()))

    def step(self, act):
        n = act["n"]
        self.err = None
        if n == "report":
            self.report(act["p"], act["a"])
        elif n == "report2":
            with self.c.changes_squashed:
                self.report(act["p"], act["a"])
                self.report(act["q"], act["b"])
        elif n == "disable":
            self.ctx.post(["c", "disable"])
        else:
            bad = n == "disablefail" or not act["ok"]
            self.parts[2].fail = act["msg"] if bad else None
            try:
                self.ctx.post(["c", "reset" if n == "reset" else "disable"])
            except Exception as e:
                self.err = str(e)
                if not bad or self.err != act["msg"]:
                    self.err = "unexpected error %r" % e
                else:
                    self.err = None
            else:
                if bad:
                    self.err = "no error raised"
            self.parts[2].fail = None
        settle(4)

    def check(self, st):
        if getattr(self, "err", None):
            return self.err
        for v, a, w in ([(self.c.health.value, self.c.health.alarm, "block")] +
                        [(x["value"], x["alarm"], "subscriber") for x in self.seen[-1:]]):
            sev = a.severity if w == "block" else a["severity"]
            msg = a.message if w == "block" else a["message"]
            sev = getattr(sev, "value", sev)
            if not st["allow"]:
                if v != "OK" or sev != 0:
                    return "%s: health %r severity %r with no fault outstanding" % (w, v, sev)
            elif not any(m["msg"] == v == msg and m["sev"] == sev for m in st["allow"]):
                return "%s: health %r alarm %r/%r, model one of %r" % (w, v, sev, msg, st["allow"])
        if st["state"] != self.c.state.value:
            return "state %s model %s" % (self.c.state.value, st["state"])
        for x in self.seen:
            sev = getattr(x["alarm"]["severity"], "value", x["alarm"]["severity"])
            if (sev == 0) != (x["value"] == "OK"):
                return "subscriber shown value %r with severity %r" % (x["value"], sev)
        self.seen = self.seen[-1:]
        return None


def run_job(job, params):
    return replay_steps(Driver, job, dict(allow=[], state="Ready"))
