"""Runnable.tla (configure, run, breakpoints, outer axes, pause, seek, resume, abort, with run sections and step accounting) model checked; random behaviours replayed into a real RunnableController with two recording parts, comparing the step ranges every part is asked for, step counts, states, call results and writeable flags after every step."""


def run(ck):
    ck.mc("Runnable", ck.q("Runnable_mc10q.cfg", "Runnable_mc10.cfg"))
    ck.sim("Runnable", "Runnable_sim10.cfg", "runnable", ck.q(3000, 40000), 60)
