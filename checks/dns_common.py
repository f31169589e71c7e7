"""scripts for the name server: questions byte by byte, peers, floods"""
import vf, struct
CONSTS = "NBUF = 256\nRATE = 8"
INVS = ["RateLimited", "PoolBounded"]
def harness():
    return vf.compile_harness("dns", ["dns.c"], ["libdns.a", "libkvpsync.a", "libweb.a", "libduv.a", "libcrypto.a", "libdstr.a"], syslibs=["systemd"], flags=["-DFILE_BASENAME=\"dns\""])
ZONE = [b"user", b"splintermail", b"com"]
ACME = b"_acme-challenge"
USERS = [b"alice", b"bob", b"x" * 63, b"a\0b", b"u.v", b"carol_challenge", b"zed"]
SRC = [("192.0.2.%d" % i, i) for i in range(1, 25)] + [("2001:db8:0:%x::%x" % (i, j), 100 + i) for i in range(1, 9) for j in (1, 2, 3)]
def hx(b): return b.hex() or "-"
def enc(labels): return b"".join(bytes([len(l)]) + l for l in labels) + b"\0"
def mix(rng, l): return bytes(c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and rng.random() < .4 else c for c in l)
def rr(name, t, cls, ttl, data): return name + struct.pack(">HHIH", t, cls, ttl, len(data)) + data
def opt(rng, size=None):
    o = b""
    for _ in range(rng.choice([0, 0, 0, 1, 2])): d = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 8, 24]))); o += struct.pack(">HH", rng.choice([3, 8, 10, 12, 65001]), len(d)) + d
    k = rng.random()
    if k < .06: o += b"\0\x0a\0"
    elif k < .14: o += struct.pack(">HH", 10, rng.choice([1, 2, 9, 300, 65535]))
    elif k < .18: o += struct.pack(">HH", 10, 5) + b"abcd"
    n = b"\0" if rng.random() < .95 else rng.choice([enc([b"a"]), b"\xc0\x0c"])
    return rr(n, 41, rng.choice([0, 100, 511, 512, 513, 1232, 1400, 4095, 4096, 4097, 65535]) if size is None else size, rng.choice([0, 0, 0x8000, 0x10000]), o)
def junkrr(rng):
    n = rng.choice([b"\0", enc([b"x"]), b"\xc0\x0c", enc([b"k" * 63] * 2)])
    d = rng.choice([b"", bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 16, 40]))),
                    b"\0" + struct.pack(">HHIH", 41, 100, 0, 0), b"\0" + struct.pack(">HHIH", 41, 700, 0, 60000), b"\x3f" * 30])
    return rr(n, rng.choice([1, 250, 16, 28, 46, 65280]), rng.choice([1, 255]), rng.choice([0, 300]), d)
def labels(rng, user=None):
    u = user or rng.choice(USERS + [b"ALICE", b"nobody", b"Bob", bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 63])))])
    k = rng.random()
    z = list(ZONE)
    if k < .5: L = [ACME, u] + z
    elif k < .62: L = [u] + z
    elif k < .74: L = z
    elif k < .82: L = [rng.choice([b"www", b"acme-challenge", b"_acme-challeng", b"_acme-challenge2", u])] + [u] + z
    elif k < .88: L = [b"a"] * rng.choice([1, 2, 60, 100]) + [ACME, u] + z
    elif k < .91: L = rng.choice([[], [b"com"], z[1:], [b"user", b"splintermail", b"org"], [b"users"] + z[1:], z + [b"com"], [b"user.splintermail"] + [b"com"], [ACME] + z, [b"userX", b"splintermail", b"com"], [b"user", b"splintermail", b"co"]])
    elif k < .94: L = [b"y" * 63, b"z" * 63, b"w" * rng.choice([60, 61, 62, 63]), u[:20]] + z
    else: L = [ACME, u] + z
    return [mix(rng, l) for l in L] if rng.random() < .5 else L
TYPES = [16] * 12 + [1, 28, 257, 6, 2, 1, 28, 257, 6, 2, 0, 5, 12, 15, 17, 41, 255, 252, 256, 258, 65535, 10]
def query(rng, user=None, plain=False):
    L = labels(rng, user)
    t = 16 if plain and rng.random() < .6 else rng.choice(TYPES)
    fl = 0x0100 if rng.random() < .6 else 0
    if not plain and rng.random() < .12: fl = rng.choice([0x8000, 0x0800, 0x2000, 0x7800, 0x0200, 0x0400, 0x0080, 0x0070, 0x000f, 0x0130, 0x4000])
    qc = 1 if plain or rng.random() < .95 else rng.choice([0, 2, 3, 4, 254, 255, 257, 65535])
    an = ns = 0
    body, adds = b"", []
    if not plain:
        for _ in range(rng.choice([0] * 8 + [1, 2])): body += junkrr(rng); an += 1
        for _ in range(rng.choice([0] * 8 + [1])): body += junkrr(rng); ns += 1
        adds = [junkrr(rng) for _ in range(rng.choice([0] * 6 + [1, 1, 2]))]
    if rng.random() < .55: adds.insert(rng.randint(0, len(adds)), opt(rng, rng.choice([1232, 4096, 512]) if plain else None))
    if not plain and rng.random() < .04: adds.append(opt(rng))
    body += b"".join(adds)
    ar, qd = len(adds), 1
    nm = enc(L)
    k = rng.random()
    if not plain and k < .1 and len(L) > 1:
        # the rest of the name lies behind everything else, or in the middle of it
        i = rng.randint(0, len(L) - 1)
        hole = enc(L[i:])
        nm = enc(L[:i])[:-1]
        pos = 12 + len(nm) + 2 + 4
        ext = rr(b"\0", 16, 1, 0, hole)
        body = ext + body; an += 1
        nm += struct.pack(">H", 0xc000 | (pos + 11))
    elif not plain and k < .16:
        i = rng.randint(0, len(L)); pre = enc(L[:i])[:-1]
        nm = pre + struct.pack(">H", rng.choice([0xc00c, 0xc000 | (12 + len(pre)), 0xc000, 0xc004, 0xffff, 0xc000 | rng.randint(0, 60)]))
        body += rng.choice([b"", b"\0\0\0\0", b"\x01a\xc0\x0c"])
    b = struct.pack(">HHHHHH", rng.randrange(65536), fl, qd, an, ns, ar) + nm + struct.pack(">HH", t, qc) + body
    if not plain:
        k = rng.random()
        if k < .06: b = b[:rng.randint(0, len(b))]
        elif k < .12 and b:
            b = bytearray(b)
            for _ in range(rng.choice([1, 1, 2, 4])): b[rng.randrange(len(b))] = rng.choice([0, 1, 0x3f, 0x40, 0x80, 0xc0, 0xff, rng.randrange(256)])
            b = bytes(b)
        elif k < .14: b = b[:4] + struct.pack(">H", rng.choice([0, 2, 3, 65535])) + b[6:]
        elif k < .17: i = rng.choice([6, 8, 10]); b = b[:i] + struct.pack(">H", rng.choice([0, 1, 2, 3, 700, 65535])) + b[i + 2:]
        elif k < .19: b += bytes(rng.randrange(256) for _ in range(rng.randint(1, 30)))
    return b
class Peer:
    """an honest sender, packets in order"""
    def __init__(s, p, base): s.p, s.sync, s.upd, s.db, s.nsync, s.base = p, 0, 0, {}, base, base; s.live = False
    def addr(s): return "10.0.0.%d %d" % (1 + s.p % 2, 9001 + s.p)
    def line(s, ty, key=b"", val=b"", exp=0, d=0, cut=0, resync=0): return "up %s %s %d %d %d %d %s %s %d %d" % (s.addr(), ty, s.sync, s.upd, resync, exp, hx(key), hx(val), d, cut)
    def session(s, rng, db, exp, flush=True):
        s.nsync += 1; s.sync = s.nsync; s.upd = 1; s.ids = {}; s.db = dict(db)
        L = [s.line("start", resync=9000 + s.p)]
        for k, v in db.items(): s.upd += 1; s.ids[k] = s.upd; L.append(s.line("insert", k, v))
        if flush: s.upd += 1; L.append(s.line("flush", exp=exp)); s.live = True
        return L
    def put(s, k, v, exp=0):
        L = s.drop(k, exp) if k in s.db else []
        s.upd += 1; s.ids[k] = s.upd; s.db[k] = v
        return L + [s.line("insert", k, v, exp)]
    def drop(s, k, exp=0):
        s.upd += 1; L = [s.line("delete", k, b"", exp, s.ids.pop(k))]; s.db.pop(k); return L
    def beat(s, exp): s.upd += 1; return [s.line("empty", exp=exp)]
def val(rng): return bytes(rng.randrange(256) for _ in range(rng.choice([43, 43, 43, 1, 0, 200, 255])))
def wire(rng, n):
    t = rng.randint(1, 2000000)
    P = Peer(0, 100)
    L = ["init 1 0 %d" % t] + P.session(rng, {u: val(rng) for u in USERS if rng.random() < .6}, t + (10**6 if rng.random() < .7 else 0))
    for _ in range(n): a, px = rng.choice(SRC); L.append("q %s %d %s" % (a, px, hx(query(rng)))); 
    return L
def sync(rng, n):
    t = rng.randint(1, 2000000); np = rng.choice([1, 2, 2, 3, 8])
    L = ["init %d 0 %d" % (np, t)]
    Ps = [Peer(p, 100 * (p + 1)) for p in range(np)]
    for p in Ps:
        if rng.random() < .7: L += p.session(rng, {u: val(rng) for u in USERS if rng.random() < .4}, t + rng.choice([0, 15000, 30000]), rng.random() < .85)
    for _ in range(n):
        p = rng.choice(Ps); k = rng.random(); e = t + rng.choice([0, 1, 1000, 15000, 30000])
        if k < .5:
            a, px = rng.choice(SRC); L.append("q %s %d %s" % (a, px, hx(query(rng, rng.choice(USERS), True))))
            if rng.random() < .3: L.append("done 1 ok")
        elif k < .62: x = rng.choice([1, 100, 999, 5000, 14999, 15000, 30000]); t += x; L.append("adv %d" % x)
        elif k < .66: L += p.session(rng, {u: val(rng) for u in USERS if rng.random() < .5} if rng.random() < .6 else p.db, e, rng.random() < .8)
        elif k < .68: L.append(p.line("empty", exp=e, cut=rng.choice([0, 1, 5, 17])))
        elif k < .70: L.append("up %s empty %d 9 0 %d - - 0 0" % (rng.choice(["10.0.0.1 9002", "10.9.9.9 9001", "2001:db8::1 9001", "10.0.0.2 9001", "10.0.0.1 9050"]), p.sync, e))
        elif k < .72: L.append(p.line("junk"))
        elif k < .74: L.append("done %d %s" % (rng.randint(1, 4), rng.choice(["ok", "cancel", "dest", "nokey"])))
        elif k < .75: L.append("nothing %d" % rng.randint(0, 1))
        elif k < .76: L.append("partial 192.0.2.1 %d %s" % (rng.randint(0, 1), hx(query(rng, None, True))))
        elif p.sync:
            if k < .82: L += p.beat(e)
            elif k < .93: L += p.put(rng.choice(USERS), val(rng), e)
            elif p.db: L += p.drop(rng.choice(list(p.db)), e)
        elif rng.random() < .5: L.append(p.line(rng.choice(["empty", "flush", "insert"]), exp=e)); L.append(p.line("start", resync=77).replace(" start 0 0", " start 5 1"))
    return L
def rate(rng, n):
    t = rng.randint(1, 2000000); nb = rng.choice([1, 1, 2, 7, 65521, 65521])
    L = ["init 1 %d %d" % (nb, t)]
    def good():    # always worth an answer, so that a silence is a refusal
        L = [mix(rng, l) for l in rng.choice([[ACME, b"zed"], [b"zed"], [], [b"a", b"b", b"c", b"d"]]) + ZONE]
        return struct.pack(">HHHHHH", rng.randrange(65536), 256, 1, 0, 0, 0) + enc(L) + struct.pack(">HH", rng.choice([16, 1, 6, 99]), 1)
    q = [hx(good()) for _ in range(4)]
    few = rng.sample(SRC, rng.choice([1, 2, 3, 48]))
    while len(L) < n:
        k = rng.random()
        if k < .8:
            a, px = rng.choice(few)
            for _ in range(rng.choice([1, 1, 4, 7, 8, 9, 12])): L.append("q %s %d %s" % (a, px, rng.choice(q)))
        else: L.append("adv %d" % rng.choice([1, 100, 500, 999, 1000, 1001, 31000, 32000, 64000, 32000 - 500]))
        if rng.random() < .3: L.append("done %d ok" % rng.randint(1, 30))
    return L
def pool(rng, n):
    t = rng.randint(1, 2000000)
    P = Peer(0, 100)
    L = ["init 2 0 %d" % t] + P.session(rng, {b"alice": b"v"}, t + 10**6)
    good = [query(rng, b"alice", True) for _ in range(3)]
    o = 2
    for _ in range(n):
        k = rng.random()
        for _ in range(rng.choice([1, 5, 60, 120])):
            j = rng.random()
            if j < .7: a, px = rng.choice(SRC); L.append("q %s %d %s" % (a, px, hx(rng.choice(good))))
            elif j < .8: L.append("q 192.0.2.1 1 00")
            elif j < .9: L += P.beat(t + 10**6) if rng.random() < .7 else [P.line("junk")]
            elif j < .95: L.append("nothing %d" % rng.randint(0, 1))
            else: L.append("partial 192.0.2.1 0 0011")
        L.append("done %d %s" % (rng.choice([1, 1, 2, 100, 300]), rng.choice(["ok"] * 6 + ["dest", "nokey", "cancel"] + (["err"] if rng.random() < .1 else []))))
    return L
