"""K01: a replica never confidently denies, nor invents, a record (kvpsync safety)"""
from kvp_common import *
def run(c):
    exe = harness()
    c.assumptions += ["clocks of both ends are synchronised (PROTOCOL)", "a packet lives at most 200 s in the network",
                      "once a rebooted replica starts synchronising, packets of earlier synchronisations do not arrive any more"]
    for cfg in c.n([(1, 1, 3, 1, 1, 0), (3, 1, 3, 1, 0, 0), (2, 2, 3, 1, 0, 0)],
                   [(1, 1, 3, 1, 1, 1), (2, 1, 3, 1, 1, 0), (3, 1, 3, 2, 0, 0), (2, 1, 4, 1, 0, 0), (2, 2, 3, 1, 0, 0)]):
        c.model("KvpSyncMC", mc(*cfg), "KvpSyncMC now<=%d gens<=%d updates<=%d RESP=%d srestarts=%d rrestarts=%d" % cfg)
    S = [d for d in DIRECTED] + [script(c.rng, MODES[i % len(MODES)], False) for i in range(c.n(900, 8000))]
    c.conform(exe, S, "KvpSyncTrace", CONSTS, INVS)
    # the recorded finding: identified by this one history and this one invariant
    t = c.conform(exe, [WINDOW], "KvpSyncTrace", CONSTS, INVS, tag="known")
    r = c.judge("KvpSyncTrace", t, CONSTS, ["AckedNeverDenied"], tag="known2", count=False)
    if r: c.known("resync-window", "after a sender restart a replica whose old OK period is running answers a confident 'no' for a key whose insert it has already acknowledged, until the new synchronisation's flush arrives (at most 15 s)")
