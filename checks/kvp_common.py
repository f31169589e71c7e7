import vf
CONSTS = "Keys = {1,2,3}\nRESP = 15000\nFAULT = 1000"
INVS = ["ValueWasHeld", "NoLateDenial", "AckedIsServed", "AckedWasDelivered", "AckedServedNow", "DeletedStaysDeleted"]
def harness():
    return vf.compile_harness("kvp", ["kvp.c"], ["libkvpsync.a", "libcrypto.a", "libdstr.a"])
def mc(now, gen, upd, resp, sr, rr):
    return ("SPECIFICATION MCSpec\nCONSTANTS\nKeys = {1}\nRESP = %d\nFAULT = 0\nMAXNOW = %d\nMAXGEN = %d\nMAXUPD = %d\nSRESTARTS = %d\nRRESTARTS = %d\n"
            "VIEW View\nCONSTRAINT Small\n" % (resp, now, gen, upd, sr, rr) + "".join("INVARIANT %s\n" % i for i in INVS))
def script(rng, mode, heal):
    K, L = 3, []
    W = dict(add=20, dele=10, dlv=30, dup=8, drop=4, adv=14, q=9, rr=1, sr=1, lazy=1, dropall=1)
    if mode == "aged": W.update(dup=30, drop=0, dropall=0, dele=16, adv=25, rr=0, sr=0.3)
    if mode == "resync": W.update(rr=6, sr=3, dup=15)
    if mode == "lossy": W.update(drop=30, dropall=6)
    if mode == "calm": W.update(drop=0, dropall=0, dup=0, rr=0.3, sr=0.3, adv=6, dlv=60)
    if mode == "deep": W.update(add=60, dlv=40, adv=20, drop=6, K=1)
    ops = list(W); ws = [W[o] for o in ops]
    if mode != "chaos": L += ["add %d" % rng.randint(1, K)] * rng.randrange(0, 3) + ["dlv 0"] * rng.randrange(2, 14)
    for _ in range(rng.randrange(5, 70)):
        o = rng.choices(ops, ws)[0]
        if o == "add": L.append("add %d" % rng.randint(1, K))
        elif o == "dele": L.append("del %d" % rng.randint(1, K))
        elif o == "dlv":
            i = rng.choice([0, 0, 0, -1, rng.randint(0, 9)])
            L += ["dlv %d" % i] * rng.choice([1, 1, 1, 4])
        elif o == "dup": L.append("dup %d" % rng.choice([0, 0, -1, rng.randint(0, 9)]))
        elif o == "drop": L.append("drop %d" % rng.randint(0, 9))
        elif o == "adv": L.append("adv %d" % (rng.choice([1, 20, 300, 1000, 1500, 4000, 12000, 14999, 16000]) if mode != "aged" else rng.choice([1, 300, 2000, 5000, 15000, 50000])))
        elif o == "q": L.append("q %d" % rng.randint(1, K))
        elif o == "rr": L.append("rr 0 %d" % rng.randint(0, 1))
        elif o == "sr": L.append("sr")
        elif o == "lazy": L.append("lazy %d" % rng.randint(0, 1))
        elif o == "dropall": L.append("dropall")
    if heal:
        L.append("heal 60000"); L.append("end %d" % K)
    else:
        for k in range(1, K + 1): L += ["q %d" % k]
        L += ["adv 14999"] + ["q %d" % k for k in range(1, K + 1)] + ["adv 20"] + ["q %d" % k for k in range(1, K + 1)]
    return "\n".join(L) + "\n"
MODES = ["chaos", "aged", "resync", "lossy", "calm", "deep"]
# histories aimed at one rule each
DIRECTED = [
    # a delayed insert arriving after its deletion was applied must stay deleted, however late
    "dlv 0\ndlv 0\n" + "dlv 0\n" * 6 + "add 1\ndup -1\ndlv -1\ndel 1\ndlv -1\ndlv -1\nadv 30000\nq 1\ndup 0\nq 1\ndup 1\nq 1\ndup 2\nq 1\ndup 3\nq 1\n",
    "add 1\n" + "dlv 0\n" * 8 + "add 1\nadd 2\nlazy 1\nadv 5\nlazy 0\n" + "dup 0\n" * 3 + "del 1\n" + "dup 1\ndup 2\ndlv 1\n" * 3 + "q 1\nq 2\n",
    # resync in the middle of everything
    "add 1\nadd 2\n" + "dlv 0\n" * 10 + "q 1\nrr 0 0\nq 1\n" + "dup 0\n" * 3 + "dlv 0\n" * 12 + "q 1\nq 2\nadd 1\n" + "dlv -1\n" * 4 + "q 1\n",
    "add 1\n" + "dlv 0\n" * 10 + "sr\nq 1\nadv 3\ndlv 0\ndlv 0\ndlv 0\nadd 2\nq 1\ndlv 0\ndlv 0\nq 1\nq 2\nadv 15000\nq 1\nq 2\n",
]

# known finding: the replica keeps its old OK period while a restarted sender synchronises it anew
WINDOW = "dlv 0\n" * 6 + "q 1\nsr\nadd 1\ndlv 0\ndlv 0\nq 1\ndlv 0\ndlv 0\nq 1\ndlv 0\nq 1\n"
