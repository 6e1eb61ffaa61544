"""WsServer.tla (connections from permitted and other networks that come and go and send good and bad messages, alone or in bursts, to two blocks) model checked: every message answered once on its connection with its id, forbidden clients change nothing, ids and subscriptions end as they should. Its behaviours replayed into the real websocket handler, HTTPServerComms and blocks, with tornado's loop and the sockets stood in for."""


def run(ck):
    ck.mc("WsServer", ck.q("WsServer_mcq.cfg", "WsServer_mc.cfg"))
    ck.sim("WsServer", "WsServer_sim.cfg", "wsserver", ck.q(1500, 40000), 40, params=dict(validate=True))
    ck.sim("WsServer", "WsServer_simF.cfg", "wsserver", ck.q(500, 10000), 40, params=dict(validate=False))
