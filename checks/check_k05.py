"""K05: replicas are merged yes before no before unknown; rate limit; packet buffers"""
from dns_common import *
def run(c):
    exe = harness()
    c.model("DnsServerMC", "SPECIFICATION MCSpec\nCONSTANTS\nNBUF = 3\nRATE = 2\nMAXT = %d\nMAXU = %d\nINVARIANTS Faithful RateLimited PoolBounded\nPROPERTY NoDenial\n" % c.n((3000, 3), (4000, 5)), "DnsServerMC 2 peers, 1 key")
    S = [sync(c.rng, 80) for _ in range(c.n(150, 1500))] + [rate(c.rng, 150) for _ in range(c.n(80, 800))] + [pool(c.rng, 12) for _ in range(c.n(30, 200))]
    S = ["\n".join(s) + "\n" for s in S]
    c.conform(exe, S, "DnsServerTrace", CONSTS, INVS)
