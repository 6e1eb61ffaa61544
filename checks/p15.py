"""Exports.tla (fields of two children exported by a manager and exported again by a second manager; copies followed change by change and rebuilt when fields come and go) model checked: copies are exact, fields vanish with their source, writes and calls go to the source; random histories of source changes, bursts, replaced fields, export and visibility edits (also while the source keeps changing), writes and calls through the exported names replayed into two real ManagerControllers, comparing every exported field with its source and with what a delta subscriber of each manager has put together."""


def run(ck):
    ck.mc("Exports", "Exports_mc.cfg")
    ck.sim("Exports", "Exports_sim.cfg", "exports", ck.q(1200, 40000), 30)
