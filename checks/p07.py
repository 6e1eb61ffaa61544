"""Process.tla (controllers added, started, published, halted; failing, unpublished and slow ones, controllers that add others while starting, blocks used by several parents, work spawned before and during the stop) model checked; random histories over random topologies replayed into a real Process with plain and stateful controllers, comparing how often each was started and halted, what every controller was given as publication and in which order, what calls were refused and when calls returned."""


def run(ck):
    ck.mc("Process", "Process_mc.cfg")
    ck.sim("Process", "Process_sim.cfg", "process", ck.q(3000, 80000), 30)
