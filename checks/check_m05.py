"""M05: every change a client asks for reaches the server once"""
from m_common import *
def run(c):
    mechanism(c, 1, 1, 2, 3, 1, "store expunge")
    if c.tier == "thorough": mechanism(c, 2, 2, 2, 4, 1, "store expunge"); mechanism(c, 1, 2, 3, 4, 1, "noop fetch store expunge")
    notices(c, "lostsync", 1, 2, 3, 3, 0, "noop fetch store expunge")
    exe, pool, sc = setup(c)
    campaign(c, exe, pool, sc, dict(clients=3, store=5, expunge=2, copy=2, close=.8, fetch=2), c.n(800, 8000), "many changes", ("txs", "txx", "txc", "ver"))
    campaign(c, exe, pool, sc, dict(clients=3, store=5, expunge=2, copy=2, dropup=.4, relay_no=.15, close=.6), c.n(800, 8000), "refusals and broken connections", ("txs", "ver", "udead"), base=100000)
    campaign(c, exe, pool, sc, dict(clients=2, examine=.5, store=5, expunge=2, copy=2, rmfile=.5, logout=.5), c.n(400, 4000), "read-only mailboxes, removed files", ("txs", "rmf"), base=200000)
