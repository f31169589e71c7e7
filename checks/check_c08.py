"""C08: one tagged reply per command, in order, right for the session's state; pass-through commands reach the server exactly once"""
from m_common import *
import sess_run
def run(c):
    exe, pool, sc = setup(c)
    n = c.n(400, 4000)
    K = dict(module="ImapSessionTrace", cls="Sess", need="cmd tag plus up rep line got un bye quiet".split())
    campaign(c, exe, pool, sc, dict(steps=260, init=3, clients=2), n, "two clients", **K)
    campaign(c, exe, pool, sc, dict(steps=200, init=3, clients=1, pipe=0.85), n, "one client, long pipelines", base=50000, **K)
    campaign(c, exe, pool, sc, dict(steps=260, init=3, clients=3, pipe=0.1, split=0.6, dropcl=0.1), n // 2, "three clients, split input, clients leaving", base=90000, **K)
