"""PandA.tla (several callers sharing one ordered text connection to a device whose answers arrive in arbitrary pieces) model checked: no answer is lost or goes to another call. Its behaviours replayed into the real PandABlocksClient against a scripted socket that cuts the bytes as the specification says: every call must end exactly when its last piece arrives, with the answer to its own commands. PandATable.tla: columns of tables as bit ranges of rows, and the description a device gives of itself; behaviours with random layouts, rows and descriptions replayed likewise."""


def run(ck):
    ck.mc("PandA", "PandA_mc.cfg")
    ck.sim("PandA", "PandA_sim.cfg", "panda", ck.q(3000, 60000), 60)
    ck.mc("PandATable", "PandATable_mc.cfg")
    ck.sim("PandATable", "PandATable_sim.cfg", "pandatable", ck.q(1500, 30000), 20)
