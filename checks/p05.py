"""Writes.tla (one attribute of every kind and a method; the conversion of every given value as a function of the declared type; writeable flags; method logs) model checked over all kinds and values: converted values have the declared type, refused requests change nothing; random histories of puts (raw, with get, through views), posts, failing functions, locked fields and misdirected requests replayed into a real block, comparing what the function saw, what the block holds, responses, subscriber updates and the took/returned record."""


def run(ck):
    ck.mc("Writes", "Writes_mc.cfg")
    ck.sim("Writes", "Writes_sim.cfg", "writes", ck.q(2500, 60000), 40)
