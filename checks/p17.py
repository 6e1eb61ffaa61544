"""WsProxy.tla (a block and its proxy joined by a connection whose messages take their time and may be lost with it; calls through the proxy, several at once) model checked: every call is under way exactly once or answered, the proxy only moves forward and is the block when nothing is under way. Its behaviours replayed into the real websocket server, WebsocketClientComms and ProxyController joined by queues: the proxy must equal the block as it was at the version the specification says, in every field, value, alarm and piece of metadata, and calls must end when and as it says."""


def run(ck):
    ck.mc("WsProxy", ck.q("WsProxy_mcq.cfg", "WsProxy_mc.cfg"))
    ck.sim("WsProxy", "WsProxy_sim.cfg", "wsproxy", ck.q(1500, 30000), 40)
