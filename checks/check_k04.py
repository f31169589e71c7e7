"""K04: the name server answers every datagram as its zone policy demands, and ignores what it must"""
from dns_common import *
def run(c):
    exe = harness()
    S = [wire(c.rng, 40) for _ in range(c.n(250, 2500))]
    S = ["\n".join(s) + "\n" for s in S]
    c.conform(exe, S, "DnsServerTrace", CONSTS, INVS)
