"""M02: a local UID never names two messages"""
from m_common import *
def run(c):
    exe, pool, sc = setup(c)
    campaign(c, exe, pool, sc, dict(append=2, copy=2, select=1, close=.8, logout=.4, init=3), c.n(800, 8000), "much reselecting", ("uidn", "fet", "lf", "shut"))
    campaign(c, exe, pool, sc, dict(append=2, copy=2, crash=.5, die=.2, select=.8, newmsg=2.5), c.n(900, 9000), "crashes", ("uidn", "crash"), base=100000)
    campaign(c, exe, pool, sc, dict(rmfile=2, logout=.6, clients=1, dropcl=.2), c.n(300, 3000), "files removed", ("uidn", "rmf"), base=200000)
