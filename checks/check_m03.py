"""M03: a crash at any point loses nothing"""
from m_common import *
def run(c):
    exe, pool, sc = setup(c)
    campaign(c, exe, pool, sc, dict(crash=.6, die=.15, newmsg=2.5, steps=200), c.n(1200, 12000), "crash inside any system call", ("crash", "rxb", "lf"))
    campaign(c, exe, pool, sc, dict(crash=.5, die=.3, rmfile=1, clients=1, append=2, copy=2, logout=.5), c.n(600, 6000), "crashes and removed files", ("crash", "rmf"), base=100000)
    campaign(c, exe, pool, sc, dict(crash=1.5, boxes=["INBOX"], copy=0, othergone=2, steps=120), c.n(400, 4000), "crash after crash", ("crash",), base=200000)
