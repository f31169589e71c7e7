"""K02: once the network heals, every replica converges (kvpsync liveness)"""
from kvp_common import *
def run(c):
    exe = harness()
    c.assumptions += ["the healed network delivers every packet within 10 ms for 60 s"]
    for cfg in c.n([(1, 1, 3, 1, 1, 0)], [(1, 1, 3, 1, 1, 1), (2, 1, 4, 1, 0, 0)]):
        c.model("KvpSyncMC", mc(*cfg), "KvpSyncMC now<=%d gens<=%d updates<=%d RESP=%d srestarts=%d rrestarts=%d" % cfg)
    S = [d + "heal 60000\nend 3\n" for d in DIRECTED] + [script(c.rng, MODES[i % len(MODES)], True) for i in range(c.n(900, 8000))]
    c.conform(exe, S, "KvpSyncTrace", CONSTS, INVS)
