"""M04: when nothing is in flight the local copy equals the server's"""
from m_common import *
def run(c):
    mechanism(c, 1, 2, 3, 2, 1, "noop fetch")
    if c.tier == "thorough": mechanism(c, 1, 3, 4, 3, 1, "noop"); mechanism(c, 2, 2, 3, 3, 2, "noop")
    exe, pool, sc = setup(c)
    campaign(c, exe, pool, sc, dict(quiet=1, newmsg=2.5, otherflags=2.5, othergone=2), c.n(800, 8000), "changes on the server", ("quiet", "rxm", "rxg"))
    campaign(c, exe, pool, sc, dict(quiet=1, dropup=.4, dropcl=.2, connfail=.1, clients=3), c.n(600, 6000), "broken connections", ("quiet", "udead"), base=100000)
    campaign(c, exe, pool, sc, dict(quiet=.8, crash=.4, die=.1, rmfile=.5), c.n(500, 5000), "crashes", ("quiet", "crash"), base=200000)
    # the recorded finding: this one history, noticed at the first rest point
    r = one((exe, pool, 1, dict(late_copyuid=True), sc, "LateCopyuid"))
    if r["viol"] or r["err"]: return report(c, {}, r, "the citm misbehaves when a copy vanishes before its COPYUID: %s" % (r["viol"] or r["err"]), "")
    v = c.judge("ImaildirTrace", [r["tr"]["Work"]], tag="known", count=False)
    if v and r["tr"]["Work"][v[1] - 1]["e"] == "quiet":
        c.known("late-copyuid", "a message which is gone from the server before the citm reads the COPYUID or APPENDUID naming it is stored for ever as if it still existed (imaildir_add_local_file)")
    elif v: report(c, {}, r, "rejected by Imaildir.tla at %s" % json.dumps(r["tr"]["Work"][v[1] - 1]), "")
