"""Context.tla with stop and ignore-stops actions model checked; random behaviours replayed into a real Context against a real Controller, comparing which waits are aborted at every step."""


def run(ck):
    ck.mc("Context", ck.q("Context_mc_P04q.cfg", "Context_mc_P04.cfg"))
    ck.sim("Context", "Context_sim_P04.cfg", "ctx", ck.q(3000, 60000), 40)
