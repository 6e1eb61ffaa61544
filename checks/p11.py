"""Runnable.tla with every phase able to take time, parts that stop at once, slowly or fail, and abort, pause, disable at any point, model checked (no activity in resting states, no stuck call); random behaviours replayed into a real RunnableController, comparing active parts, states gone through, call outcomes and faults; the same commands arriving at arbitrary scheduler rounds are recorded and validated against RunTrace.tla."""


def run(ck):
    ck.mc("Runnable", ck.q("Runnable_mc11q.cfg", "Runnable_mc11.cfg"))
    ck.sim("Runnable", "Runnable_sim11.cfg", "runnable", ck.q(3000, 60000), 50)
    ck.jitter("Runnable", "Runnable_sim11j.cfg", "runtrace", ck.q(2000, 30000), 40, "RunTrace", "RunTrace.cfg")
