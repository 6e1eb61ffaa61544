"""Prof.tla (what may be written for a range of points: rows of half points, turnarounds, run up and tail, batches, progress), model checked at small sizes with every trajectory it allows: every half point is passed once, in order and in time; scans, ranges, batch sizes, pauses and moves put through a RunnableController with a real PmacChildPart, and every batch written and step reported validated as a behaviour of it."""


def run(ck):
    ck.mc("ProfPlay", ck.q("ProfPlay_mc.cfg", "ProfPlay_big.cfg"))
    ck.jitter("ProfPlay", "ProfPlay_sim.cfg", "prof", ck.q(1000, 40000), 40, "ProfTrace", "ProfTrace.cfg")
