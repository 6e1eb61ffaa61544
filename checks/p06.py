"""Hooks.tla (phases over parts that return, raise, return rubbish, obey, delay or ignore stops) model checked; random behaviours replayed into Controller.run_hooks with real hooks, parts and contexts reused across phases, comparing which parts run, when the phase ends and with what."""


def run(ck):
    ck.mc("Hooks", "Hooks_mc.cfg")
    ck.sim("Hooks", "Hooks_sim.cfg", "hooks", ck.q(2500, 60000), 40)
