"""K03: the challenge publication service tells a subscriber ready only when the replicas serve its challenge"""
import vf
N, P = 6, 3
CONSTS = "Names = {1,2,3,4,5,6}\nPeers = {1,2,3}\nSCAN = 15000\nSUBT = 60000\nRESP = 15000\nSLACK = 10"
INVS = ["Consistent", "HealthyServe"]
def script(rng, mode):
    np = rng.choice([1, 2, 2, 3])
    L = ["peers %d" % np, "seed %d" % rng.randint(1, 10**6)]
    db, nc = {}, 0
    def new():
        nonlocal nc
        nc += 1; return nc
    for n in range(1, N + 1):
        if rng.random() < 0.4: db[n] = new(); L.append("db %d %d" % (n, db[n]))
    L.append("go")
    for p in range(1, np + 1):
        if rng.random() < 0.7: L += ["up %d 1" % p, "boot %d" % p]
    if mode != "raw" and rng.random() < .7: L.append("adv %d" % rng.choice([200, 1000, 5000]))
    W = dict(sub=25, db=14, flip=2, adv=30, up=6, boot=4, lat=3, wl=2, hc=3, conv=0.4, bad=2)
    if mode == "flaky": W.update(up=25, lat=10, boot=8)
    if mode == "churn": W.update(db=30, sub=40, flip=5)
    if mode == "patient": W.update(up=12, adv=40)
    ops = list(W); ws = [W[o] for o in ops]
    for _ in range(rng.randrange(10, 70)):
        o = rng.choices(ops, ws)[0]
        if o == "sub":
            n = rng.randint(1, N)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                c = db.get(n, 0)
                if not c or rng.random() < 0.08: c = rng.choice([c, rng.randint(1, max(1, nc)), nc + 50]) or 7
                L.append("sub %d %d" % (n, c))
                if rng.random() < .3: L.append("adv %d" % rng.choice([1, 5, 12, 3000]))
        elif o == "bad": L.append("sub 0 1")
        elif o == "db":
            n = rng.randint(1, N)
            if n in db and rng.random() < 0.35: db.pop(n); L.append("db %d 0" % n)
            else: db[n] = new(); L.append("db %d %d" % (n, db[n]))
        elif o == "flip":
            n = rng.randint(1, N); o = db.get(n, 0)
            L += ["db %d %d" % (n, rng.choice([0, new()])), "db %d %d" % (n, o)]
        elif o == "adv": L.append("adv %d" % rng.choice([1, 9, 10, 11, 20, 21, 30, 100, 500, 1000, 3000, 12000, 15000, 15001, 31000, 60000] if mode != "patient" else [15000, 30000, 59999, 60000, 14000]))
        elif o == "up":
            p = rng.randint(1, np); u = rng.randint(0, 1); L.append("up %d %d" % (p, u))
        elif o == "boot": L.append("boot %d" % rng.randint(1, np))
        elif o == "lat": L.append("lat %d %d" % (rng.randint(1, np), rng.choice([0, 1, 10, 10, 300, 900, 1500, 4000])))
        elif o == "wl": L.append("wl %d %d" % (rng.randint(1, np), rng.choice([0, 0, 1, 3])))
        elif o == "hc": L.append("hc")
        elif o == "conv": L.append("conv")
    if rng.random() < .6: L.append("conv")
    L += ["hc", "free"]
    return "\n".join(L) + "\n"
MODES = ["calm", "flaky", "churn", "patient", "raw"]
def post(ev):
    """calls in which nothing was said are left out"""
    out = []
    for e in ev:
        if e["e"] == "end" and out and out[-1]["e"] == "begin" and out[-1]["k"] in ("sent", "timer"): out.pop()
        elif e["e"] == "adv" and out and out[-1]["e"] == "adv": out[-1] = e
        else: out.append(e)
    return out
def run(c):
    exe = vf.compile_harness("kvpsend", ["kvpsend.c"], ["libkvpsend.a", "libkvpsync.a", "libcrypto.a", "libdstr.a"], incs=["/usr/include/mariadb"])
    c.assumptions += ["a datagram leaves the socket within 3 ms of being handed over", "a database lookup never fails"]
    c.model("KvpSendMC", "SPECIFICATION MCSpec\nCONSTANTS\nNames = {1}\nPeers = {1,2}\nSCAN = 2\nSUBT = 2\nRESP = 1\nSLACK = 0\nMAXNOW = %d\nMAXSUB = %d\nMAXC = 2\nCONSTRAINT Small\nINVARIANTS Consistent HealthyServe OneEnd NobodyLost NobodyLate ReadyWasServed\n" % c.n((2, 2), (4, 2)), "KvpSendMC")
    S = [script(c.rng, MODES[i % len(MODES)]) for i in range(c.n(900, 8000))]
    T = c.conform(exe, S, "KvpSendTrace", CONSTS, INVS, post=post)
    kinds = {}
    for t in T:
        for e in t: kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.cov["event_kinds"] = kinds
    for k in "k x t st rs ack q hc".split():
        if kinds.get(k, 0) < 100: raise vf.Infra("too few events of kind %s: %s" % (k, kinds))
