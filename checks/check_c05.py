"""C05: the certificate manager"""
import os, vf
ARCH = ["libcitm.a", "libacme.a", "libimaildir.a", "libimap.a", "libcrypto.a", "libapi_client.a", "libhttp.a", "libweb.a", "libduvtls.a", "libduv.a", "libdstr.a"]
WR = "open fopen fclose write rename unlink remove gen_key_path".split()
def harness(): return vf.compile_harness("acme", ["acme.c"], ARCH, flags=["-Wno-misleading-indentation", "-Wl," + ",".join("--wrap=" + w for w in WR)])
CONST = "POLL = 5\nUNPREP = 600\nACCBACK <- AccB\nCERTBACK <- CertB"
INV = ["OneAtATime", "Serves", "NotExpired", "Together", "NeverTorn", "CleanedUp", "Awake", "Renewing"]
FILES = "rmacct badacct rmorder badorder stale rmcert rmkey badkeynew badjwk rminst badinst other mine".split()

def script(r, n, faults=0.0, evil=0.25):
    """mostly successful replies; faults: share of operations in which the process dies"""
    o = []
    if r.random() < 0.2: o.append("F " + r.choice(("rminst", "badinst", "other", "mine", "rminst mine")))
    for i in range(n):
        q = r.random()
        v = r.randrange(200) if r.random() < evil else 0
        if q < 0.50: op = "r %d" % v
        elif q < 0.62: op = "a %d" % v
        elif q < 0.72: op = "k %d" % (v if r.random() < 0.2 else 0)
        elif q < 0.86: op = "t"
        elif q < 0.89: op = "T %d" % r.choice((1, 3, 14, 16, 100, 700, 2000, 3000, 4000, 100000, 6000000))
        elif q < 0.91: op = "s"
        elif q < 0.925: op = "c"
        elif q < 0.94: op = "i %d" % r.randrange(4)
        elif q < 0.947: op = "cc"
        elif q < 0.955: op = "close"
        elif q < 0.97: op = "restart"
        elif q < 0.98: op = "F %s" % " ".join(r.sample(FILES[:9], r.choice((1, 1, 2)))) if r.random() < 0.8 else "F " + r.choice(FILES)
        else: op = "x"
        if op[0] in "raktTsci" and op[:2] not in ("cc", "cl") and op != "restart" and r.random() < faults:
            op = "crash %d %d %s" % (r.choice((1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10)), r.randrange(0, 9), op)
        o.append(op)
        if op == "close" or r.random() < 0.01: o += ["x", "restart"]
    return "\n".join(o) + "\n"

def story(r, crash=None):
    """a whole renewal, with one crash at a chosen place"""
    o = ["r 0", "k 0", "r 0", "r 0", "a 0", "r 0", "r %d" % r.choice((0, 1, 2, 16)), "a 0", "t", "r 0", "k 0", "r 0", "a 0", "r 0", "r %d" % r.choice((0, 1, 2)), "a 0", "t", "t"]
    if crash is not None:
        i, k, torn = crash
        o[i] = "crash %d %d %s" % (k, torn, o[i])
        o += ["r 3", "k 0", "r 0", "r 0", "a 0", "r 0", "r 0", "a 0", "t"] + ["t", "k 0", "r %d" % r.choice((0, 1, 2, 3)), "r 0", "r 0", "a 0", "r 0", "r 0", "r 0", "a 0"] * 2
    return "\n".join(o) + "\n"

def aging(r):
    """short-lived certificates, and a renewal which keeps failing: every timer comes due during every other wait"""
    o = ["r 0", "k 0", "r 0", "r 0", "a 0", "r 0", "r %d" % r.choice((1, 2, 2, 13))] + ["a %d" % r.choice((0, 0, 1))] + ["t"]
    bad = r.choice((0.15, 0.4, 0.7))
    for i in range(r.choice((30, 60))):
        q = r.random()
        if q < 0.3: o.append("k 0")
        elif q < 0.65: o.append("r %d" % (r.choice((1, 4, 6, 2)) if r.random() < bad else r.choice((0, 0, 2))))
        elif q < 0.8: o.append("a %d" % (r.choice((1, 2)) if r.random() < bad else 0))
        elif q < 0.97: o.append("t")
        else: o.append("T %d" % r.choice((1, 5, 14)))
    return "\n".join(o) + "\n"

def run(c):
    exe = harness()
    r = c.rng
    c.assumptions += ["the certificate authority issues a certificate for the key an order was finalised with, and never another for the same order",
                      "a file that was renamed survives the process; power failures are not simulated", "file system calls do not fail"]
    MC = ("SPECIFICATION MCSpec\nCONSTANTS\nPOLL = 1\nUNPREP = 2\nACCBACK <- AccB\nCERTBACK <- CertB\nLIFE = 6\nTMAX = %d\nNFAULT = 2\nNORD = %d\nVIEW View\n" % c.n((12, 4), (16, 6)) +
          "".join("INVARIANT %s\n" % i for i in INV + ["Recovered", "NoFatal", "BootWorks"]))
    c.model("AcmeMC", MC, "every history with <= 2 faults (failed, unhelpful and slow replies, crashes between file operations)", timeout=800)
    sc = [script(r, r.choice((40, 80, 120)), 0, e) for e in (0.1, 0.3, 0.6) for _ in range(c.n(120, 1500))]
    sc += [script(r, 60, 0.12) for _ in range(c.n(200, 2500))]
    sc += [story(r, (i, k, t)) for i in range(18) for k in range(1, 9) for t in ((0, 3, 8) if k < 4 else (5,))]
    sc += [aging(r) for _ in range(c.n(200, 2000))]
    c.cov["bounds"] = dict(scripts=len(sc))
    tr = c.conform(exe, sc, "AcmeTrace", CONST, INV, cwd_each=True, timeout=60)
    n = lambda p: sum(bool(p(e)) for t in tr for e in t)
    cnt = dict(updates=n(lambda e: any(b["c"] == "update" and b["n"] for b in e["cbs"])), expiries=n(lambda e: any(b["c"] == "update" and not b["n"] for b in e["cbs"])),
               crashes=n(lambda e: e["m"] == "crash"), retries=n(lambda e: any(b["c"] == "dl_backoff" for b in e["calls"])),
               renewals=n(lambda e: any(b["c"] == "status" and b["n"] == 5 for b in e["cbs"])), cleanups=n(lambda e: e["e"] == "unprepare"))
    c.cov.update(cnt)
    if min(cnt.values()) < 40: raise vf.Infra("vacuous campaign: %s" % cnt)
