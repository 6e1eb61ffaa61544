"""Hdf.tla (sections, frames that arrive and are written, pauses that let more frames through, rewinds, stalls, writer errors), model checked; random behaviours replayed into a RunnableController with a real HDFWriterPart and a simulated writer block, with a clock of our own."""


def run(ck):
    ck.mc("Hdf", "Hdf_mc.cfg")
    ck.sim("Hdf", "Hdf_sim.cfg", "hdf", ck.q(250, 8000), 30)
