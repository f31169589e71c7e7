"""M06: mailbox rename, delete and download never race on a directory; no name leads out of the mail directory"""
from m_common import *
import dirmgr_common, sess_run
def run(c):
    dirmgr_common.run(c)
    exe, pool, sc = setup(c)
    n = c.n(350, 4000)
    K = dict(module="ImapSessionTrace", cls="Names", need="cmd tag up rep line quiet tree".split())
    campaign(c, exe, pool, sc, dict(steps=200, init=3, clients=2), n, "hostile mailbox names, two clients", **K)
    campaign(c, exe, pool, sc, dict(steps=160, init=3, clients=1, pipe=0.8), n // 2, "hostile mailbox names, one client", base=50000, **K)
