"""Context.tla (operations, message queue, nested waits, sleeps, timeouts, wait-for-value) model checked; random behaviours replayed into a real Context against a real Controller, comparing which waits end how at every step."""


def run(ck):
    ck.mc("Context", ck.q("Context_mc_P03q.cfg", "Context_mc_P03.cfg"))
    ck.sim("Context", "Context_sim_P03.cfg", "ctx", ck.q(3000, 60000), 40)
