"""C03/C04: the real key directory against Keydir.tla"""
import os, vf
from citm_drv import ARCH, KEYS
WR = "open write fsync rename unlink remove rmdir mkdir time".split()
def harness(): return vf.compile_harness("keydir", ["keydir.c"], ARCH, flags=["-Wl," + ",".join("--wrap=" + w for w in WR)])
NF, NMB = 4, 14

def script(rng, n, faults, spoil=False):
    """mostly legal operations; faults: share of operations crashed or failed at a random system call"""
    o, keys = [], set()
    mbs = [0] + rng.sample(range(1, NMB), rng.choice((1, 2, 4)))
    for i in range(n):
        r = rng.random(); k = None; after = None
        maybe = lambda: rng.random() < 0.5
        if r < 0.38:
            k = rng.sample(range(1, NF + 1), rng.choice((0, 1, 1, 2, 2, 3)))
            if rng.random() < 0.9: k.append(0)
            if not k: k = [0]
            rng.shuffle(k)
            op = "dec %d %s %s" % (rng.choice(mbs), ",".join(map(str, k)), rng.choice(("enc",) * 7 + ("cut", "flip", "clear")))
        elif r < 0.55 or (r < 0.62 and not keys):
            free = [f for f in range(1, NF + 1) if f not in keys]
            if not free: continue
            f = rng.choice(free); op = "add %d" % f; after = ("add", f)
        elif r < 0.66:
            f = rng.choice(sorted(keys) or [1]); op = "del %d" % f; after = ("del", f)
        elif r < 0.82: op = "synced %d" % rng.choice(mbs)
        elif r < 0.87: op = "x"
        else: op = "restart"
        if spoil and i == n // 2: op = "spoil"; after = None
        flt = ""
        if rng.random() < faults:
            m = rng.choice(("crash", "crash", "power", "power", "fail"))
            if op == "spoil": m = "crash"
            flt = "%s %d " % (m, rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 12, 14, 16, 20, 24, 30)))
        o.append(flt + op)
        if flt and after:
            # make what is known certain again: deleting is always allowed
            o.append("del %d" % after[1]); keys.discard(after[1])
        elif after: (keys.add if after[0] == "add" else keys.discard)(after[1])
        if flt and rng.random() < 0.3: o.append("restart")
    return "\n".join(o) + "\n"

def sweep(rng):
    """the same operation interrupted at each of its system calls in turn"""
    out = []
    for pre in (["x", "synced 0"], ["x"], ["synced 0", "synced 3"], []):
        for op in ("dec 0 0,1,2 enc", "dec 3 2,0 enc", "add 1", "synced 5", "x", "del 3", "restart"):
            for m in ("crash", "power", "fail"):
                o = list(pre) + (["add 3"] if op == "del 3" else []) + (["dec 0 0 enc"] if rng.random() < 0.5 else [])
                for k in range(1, 30 if op[0] in "da" else 8):
                    s = o + ["%s %d %s" % (m, k, op)]
                    if op == "add 1": s += ["del 1", "add 1"]
                    else: s += [op] if op != "del 3" else ["add 4", "restart"]
                    s += ["restart", "dec 0 0,1,2,3 enc"]
                    out.append("\n".join(s) + "\n")
    return out

def mc(c, nfault, props=True):
    inv = ["Told", "KnownSeen", "Once", "Only", "Bound"]
    c.model("KeydirMC", "SPECIFICATION MCSpec\nCONSTANTS\nF = {1,2,3}\nMBX = {0,1}\nNFAULT = %d\n" % nfault +
            "".join("INVARIANT %s\n" % i for i in inv) + "PROPERTY Quiet\nPROPERTY Grow\n", "every history over 3 keys and 2 mailboxes with <= %d crashes or failures" % nfault)

def run(c, only=None):
    exe = harness()
    c.assumptions += ["a completed system call survives a crash; after a power loss exactly what was fsynced is left of a written file; directory operations survive",
                      "at most one system call fails per operation", "the server never reports a key as created which it reported before and has not deleted since"]
    mc(c, c.n(2, 3))
    r = c.rng
    env = dict(os.environ, KEYS=KEYS, ASAN_OPTIONS="detect_leaks=0")
    sc = [script(r, r.choice((30, 60)), 0) for _ in range(c.n(150, 1500))] + \
         [script(r, 40, 0.3) for _ in range(c.n(300, 3000))] + [script(r, 12, 0.1, True) for _ in range(c.n(4, 60))]
    sw = sweep(r); r.shuffle(sw)
    sc += sw[:c.n(400, 100000)]
    c.cov["bounds"] = dict(keys=NF, mailboxes=NMB, scripts=len(sc))
    tr = c.conform(exe, sc, "KeydirTrace", "", ["Told", "KnownSeen"], env=env, cwd_each=True, timeout=120)
    al = sum(len(e["al"]) for t in tr for e in t); cr = sum(e["m"] == "crash" for t in tr for e in t); fl = sum(e["m"] == "fail" for t in tr for e in t)
    c.cov["alerts"], c.cov["crashes"], c.cov["failures"] = al, cr, fl
    if min(al, cr, fl) < 50: raise vf.Infra("vacuous campaign: %s" % [al, cr, fl])
