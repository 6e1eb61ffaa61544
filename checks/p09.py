"""Health.tla (faults reported by several parts and by the block's own state) model checked; random histories of reports, simultaneous reports, disable, reset and failing reset replayed into a real StatefulController, comparing the health attribute and what a subscriber of it was shown with the specification's set of worst faults."""


def run(ck):
    ck.mc("Health", "Health_mc.cfg")
    ck.sim("Health", "Health_sim.cfg", "health", ck.q(2500, 60000), 30)
