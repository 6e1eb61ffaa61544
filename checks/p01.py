"""Request.tla (clients, requests in progress, one answer each) model checked; random behaviours of it are replayed into a real Controller with blocking, failing and re-entrant handlers and every response compared."""


def run(ck):
    ck.mc("Request", "Request_mc.cfg")
    ck.sim("Request", "Request_sim.cfg", "request", ck.q(2500, 40000), 30)
