"""CaPv.tla (PVs that change, raise alarms, disconnect and return; attributes, a table and methods over them; puts, calls, disable, reset) model checked: attributes that listen are never behind and never hide a lost PV; random behaviours with every sort of CA part replayed into a real StatefulController over a stand-in channel access library with the merging and error behaviour of cothread.catools, comparing values, alarms, time stamps, choices, what is put, results and open subscriptions after each step."""


def run(ck):
    ck.mc("CaPv", ck.q("CaPv_mc.cfg", "CaPv_mc_thorough.cfg"))
    ck.sim("CaPv", "CaPv_sim.cfg", "capv", ck.q(900, 15000), 30)
