"""SeqTables.tla (two tables filled and played in turn; what may be written when), model checked at small sizes: what is played is the request, in order; requests around the hardware limits and real scans, with random switch points and clean ups, put through DoubleBuffer and SeqTriggers, and every table written validated as a behaviour of it at the real limits."""


def run(ck):
    ck.mc("SeqPlay", "SeqPlay_mc.cfg")
    ck.jitter("SeqPlay", "SeqPlay_sim.cfg", "seqtab", ck.q(1500, 20000), 14, "SeqTrace", "SeqTrace.cfg")
