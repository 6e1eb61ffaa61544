"""Stateful.tla (state machine of stateful and manager blocks under concurrent reset, disable, save, load with part hooks ending or failing in any order) model checked; random behaviours replayed into real StatefulController and ManagerController blocks, comparing every snapshot shown to a whole-block subscriber (state, alarm, health, writeable flags), call outcomes, field writes and running hooks.  The states of runnable blocks are covered by P10/P11."""


def run(ck):
    ck.mc("Stateful", "Stateful_mc_S.cfg")
    ck.mc("Stateful", "Stateful_mc_M.cfg")
    ck.sim("Stateful", "Stateful_sim_S.cfg", "stateful", ck.q(800, 20000), 40, params=dict(manager=False))
    ck.sim("Stateful", "Stateful_sim_M.cfg", "stateful", ck.q(800, 20000), 40, params=dict(manager=True))
