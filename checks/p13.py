"""Validate.tla (parts as arbitrary finite functions asking for changes; the agreement loop) model checked: it ends, and what is agreed is a fixpoint; random rule sets, calls with and without defaults, validate and configure replayed into a RunnableController with three parts, whose outcome must be one the specification allows and be passed to every part."""


def run(ck):
    ck.mc("Validate", "Validate_mc.cfg")
    ck.sim("Validate", "Validate_sim.cfg", "validate", ck.q(3000, 60000), 40)
