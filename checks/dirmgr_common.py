"""M06, one level down: the real dirmgr and imaildirs against Dirmgr.tla"""
import vf
NAMES = ["a", "a/b", "c", "INBOX", "d e/f"]
NA, NH, NZ = 8, 4, 4
CONSTS = "Acc = {1,2,3,4,5,6,7,8}\nHolds = {1,2,3,4}\nFrzs = {1,2,3,4}\nNamesL <- NAMES"
INVS = ["FrozenIsClosed", "OneFreeze", "RefusedIsOpen", "KickedHad"]
def harness():
    return vf.compile_harness("dirmgr", ["dirmgr.c"], ["libimaildir.a", "libimap.a", "libcrypto.a", "libduv.a", "libdstr.a"])

def under(m, n): return m == n or NAMES[m].startswith(NAMES[n] + "/")
def script(rng, n, mode):
    """legal operations only; a mailbox with open inferiors is not deleted or renamed (finding N29)"""
    acc, hold, frz, refused = {}, {}, {}, set()   # acc: i -> (name, kind, live)
    o = []
    names = list(range(len(NAMES)))
    if mode == "few": names = rng.sample(names, 2)
    def on(x): return [i for i, (m, _, l) in acc.items() if m == x and l]
    def ended(x):
        refused.discard(x)
    def kick(x):
        for i in on(x): acc[i] = (x, acc[i][1], False)
        ended(x)
    W = dict(open=30, close=16, no=4, hold=10, unhold=7, put=14, freeze=12, thaw=9, delete=6, rename=8, restart=2)
    if mode == "kick": W.update(freeze=25, thaw=22, open=45, no=2)
    if mode == "no": W.update(no=15)
    if mode == "append": W.update(put=30, restart=5)
    ops = list(W); ws = [W[k] for k in ops]
    for _ in range(n):
        op = rng.choices(ops, ws)[0]; x = rng.choice(names)
        if op == "open":
            free = [i for i in range(NA) if i not in acc]
            if not free: continue
            i = rng.choice(free); kind = rng.choice(("dn", "examine", "up"))
            # a session's own two accessors come in this order
            if x in frz.values(): o.append("%s %d %d" % (kind, i, x)); continue
            acc[i] = (x, kind, True); o.append("%s %d %d" % (kind, i, x))
        elif op == "close" and acc:
            i = rng.choice(sorted(acc)); m, _, l = acc.pop(i); o.append("close %d" % i)
            if l and not on(m): ended(m)
        elif op == "no":
            c = [i for i, (m, k, l) in acc.items() if l and k == "up"]
            if not c: continue
            i = rng.choice(sorted(c)); m = acc[i][0]
            if m in refused and rng.random() < .6: continue
            o.append("selno %d" % i)
            if m in refused: kick(m)
            else: refused.add(m)
        elif op == "hold":
            free = [h for h in range(NH) if h not in hold]
            if free: h = rng.choice(free); hold[h] = x; o.append("hold %d %d" % (h, x))
        elif op == "unhold" and hold:
            h = rng.choice(sorted(hold)); del hold[h]; o.append("unhold %d" % h)
        elif op == "put" and hold:
            h = rng.choice(sorted(hold)); o.append("put %d" % h)
        elif op == "freeze":
            free = [z for z in range(NZ) if z not in frz]
            if not free: continue
            z = rng.choice(free); o.append("freeze %d %d" % (z, x))
            if x in frz.values(): continue
            kick(x); frz[z] = x
        elif op == "thaw" and frz:
            z = rng.choice(sorted(frz)); del frz[z]; o.append("thaw %d" % z)
        elif op == "delete" and frz:
            z = rng.choice(sorted(frz)); x = frz[z]
            if any(on(m) for m in range(len(NAMES)) if m != x and under(m, x)): continue
            o.append("delete %d" % z)
            if rng.random() < .7: del frz[z]; o.append("thaw %d" % z)
        elif op == "rename" and len(frz) >= 2:
            z, y = rng.sample(sorted(frz), 2); s, d = frz[z], frz[y]
            if under(s, d) or under(d, s) or any(on(m) for m in range(len(NAMES)) if (m != s and under(m, s)) or (m != d and under(m, d))): continue
            o.append("rename %d %d" % (z, y))
            if rng.random() < .7:
                for q in (z, y): del frz[q]; o.append("thaw %d" % q)
        elif op == "restart":
            for i in sorted(acc): o.append("close %d" % i)
            for h in sorted(hold): o.append("unhold %d" % h)
            for z in sorted(frz): o.append("thaw %d" % z)
            acc.clear(); hold.clear(); frz.clear(); refused.clear()
            o.append("restart")
    return "\n".join(o) + "\n"

COMP = [b"", b".", b"..", b"cur", b"tmp", b"new", b".cache", b".cache.tmp", b".invalid", b"a", b"...", b"cure", b".curx", b"CUR", b" ", b"a b", b"\x00", b"a\x00", b"\n", b"..\n",
        b"\\", b"..\\", b"x" * 254, b"x" * 255, b"x" * 256, b".cachet", b"cache", b"\xc3\xa9", b"~", b"%2e%2e", b"*", b"&", b"new ", b"\x00cur", b".invalid2", b"cur.", b"tm"]
def names_script(rng, n):
    o = []
    for _ in range(n):
        k = rng.choice((1, 1, 1, 2, 2, 3, 4))
        b = b"/".join(rng.choice(COMP) if rng.random() < .8 else bytes(rng.choice(b"acurtmpnew./\x00") for _ in range(rng.randrange(0, 6))) for _ in range(k))
        if rng.random() < .1: b += b"/"
        if rng.random() < .1: b = b"/" + b
        o.append("valid %s" % (b.hex() or "-"))
    return "\n".join(o) + "\n"

def mc(c):
    c.model("DirmgrMC", "SPECIFICATION MCSpec\nCONSTANTS\nAcc = {1,2}\nHolds = {1}\nFrzs = {1,2}\nNamesL <- NAMES\nNTOK = %d\nCONSTRAINT Small\nINVARIANTS %s Nothing\n" % (c.n(2, 3), " ".join(INVS)), "DirmgrMC 2 accessors, 3 nested names")

def run(c):
    exe = harness()
    mc(c)
    S = [script(c.rng, c.rng.choice((20, 60, 120)), m) for m in ("mixed", "few", "kick", "no", "append") for _ in range(c.n(300, 3000))]
    S += [names_script(c.rng, 60) for _ in range(c.n(40, 400))]
    T = c.conform(exe, S, "DirmgrTrace", CONSTS, INVS, cwd_each=True, batch=320)
    kinds = {}
    for t in T:
        for e in t:
            k = e["e"] + ":" + str(e.get("r", e.get("ok"))); kinds[k] = kinds.get(k, 0) + 1
    c.cov["event_kinds"] = kinds
    for k in ("open:frozen", "freeze:busy", "selno:err", "rename:ok", "delete:ok", "put:ok", "restart:ok", "valid:True", "valid:False"):
        if kinds.get(k, 0) < 5: raise vf.Infra("vacuous: too few '%s'" % k)
