"""Notify.tla (block contents, subscriptions at every depth, squashed groups of changes) model checked; random behaviours replayed into a real Controller: every notification and the client-side reconstruction compared with the model and with the block."""


def run(ck):
    ck.mc("Notify", "Notify_mc.cfg")
    ck.sim("Notify", "Notify_sim.cfg", "notify", ck.q(3000, 60000), 25)
    ck.sim("Notify", "Notify_sim.cfg", "notify", ck.q(200, 3000), 120, seed=ck.seed + 1000)
