"""Runnable.tla with progress reports from several parts mixed with pause, seek and new runs, model checked; random behaviours replayed into a real RunnableController, comparing the completed step count after every report."""


def run(ck):
    ck.mc("Runnable", ck.q("Runnable_mc10q.cfg", "Runnable_mc10.cfg"))
    ck.sim("Runnable", "Runnable_sim12.cfg", "runnable", ck.q(3000, 40000), 60)
