"""M01: every client session sees one consistent IMAP mailbox"""
from m_common import *
def run(c):
    mechanism(c, 2, 2, 2, 4, 0, "noop fetch")
    if c.tier == "thorough": mechanism(c, 2, 2, 3, 4, 0, "noop fetch store"); mechanism(c, 1, 3, 4, 4, 0, "noop fetch")
    for b in ("unborn", "expinfetch", "stale"): notices(c, b, 1, 2, 3, 3, 0, "noop fetch store expunge")
    exe, pool, sc = setup(c)
    campaign(c, exe, pool, sc, dict(clients=3, fetch=4, search=2, idle=2), c.n(900, 9000), "three clients", ("exi", "exp", "fet", "sea", "tag"))
    campaign(c, exe, pool, sc, dict(clients=2, othergone=2.5, newmsg=2.5, otherflags=2.5, batch=.6, init=7), c.n(700, 7000), "a busy mailbox", ("exp",), base=100000)
    campaign(c, exe, pool, sc, dict(boxes=["INBOX"], clients=4, copy=0, expunge=2, process=4, deliver=4, steps=220), c.n(300, 4000), "one mailbox, four clients", ("exp",), base=200000)
