"""Detectors.tla (an outer scan and three detectors that are scans of their own, with one or several frames for each step, exposures and frames found out from what is given, sections, pauses, rewinds, failures, aborts), model checked; random behaviours replayed into a real scan block with real DetectorChildParts over real runnable detectors, comparing what every detector is asked to do, frame by frame positions, states, progress, the validated detector table and the datasets."""


def run(ck):
    ck.mc("Detectors", ck.q("Detectors_mc.cfg", "Detectors_mc_thorough.cfg"))
    ck.sim("Detectors", "Detectors_sim.cfg", "detectors", ck.q(500, 8000), 30)
