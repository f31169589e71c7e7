"""D01: hash map, ordered tree, heap and intrusive lists behave like their abstract counterparts"""
import itertools, vf
SRC = ["cont.c"]
def harness(): return vf.compile_harness("cont", SRC, ["libdstr.a"])

def g_map(rng, n, size, nk):
    """size: how full to let it get (rehash at 32, 64, 128, 256)"""
    keys = [rng.choice((0, 10000)) + i for i in range(nk)] + [10000 + i for i in range(8)]
    o = ["new 0"]
    els = list(range(size)); used = 0
    grow = True
    for i in range(n):
        k = rng.choice(keys); x = rng.choice(els); r = rng.random()
        if rng.random() < 0.02: grow = not grow
        if r < (0.55 if grow else 0.2): o.append("ms %d %d" % (k, x))
        elif r < (0.6 if grow else 0.25): o.append("mu %d %d" % (k, x)); 
        elif r < 0.75: o.append("mg %d" % k)
        elif r < 0.85: o.append("md %d" % k)
        elif r < 0.95: o.append("mr %d" % x)
        elif r < 0.985: o.append("mi " + " ".join(str(y) for y in els if rng.random() < (0 if grow else 0.3)))
        else: o.append("mp %d" % (rng.choice((1, 2, 5)) if grow else rng.choice((3, 1000))))
        # an element refused by a unique setter is not offered again
        if o[-1].startswith("mu"):
            els.remove(x)
            if len(els) < 5: break
    o.append("mi"); o.append("mp 1000"); o.append("mi")
    return o

def mv(rng, n, pop):
    a = "np" + ("NP" if pop else "")
    s = ""
    while len(s) < n:
        s += rng.choice(a) * rng.choice((1, 1, 2, 5))
    return s
def g_tree(rng, n, size):
    o = ["new 0"]; inn = set(); grow = True
    mode = rng.choice("urd")
    for i in range(n):
        r = rng.random()
        if rng.random() < 0.03: grow = not grow
        free = [k for k in range(size) if k not in inn]
        if free and r < (0.5 if grow else 0.15):
            k = {"u": min, "d": max}.get(mode, rng.choice)(free); inn.add(k); o.append("ti %d" % k)
        elif r < (0.6 if grow else 0.6):
            k = rng.choice(sorted(inn) or [0]) if rng.random() < 0.8 else rng.randrange(size); inn.discard(k); o.append("te %d" % k)
        elif r < 0.72: o.append("%s %d" % (rng.choice(("tf", "tx")), rng.randrange(size)))
        elif r < 0.8: o.append("tn %d" % rng.randrange(size + 2))
        elif r < 0.97 or grow:
            f = rng.choice([-1, -2] + ([rng.choice(sorted(inn))] if inn else []))
            o.append("tt %d %s" % (f, "n" * 700 if f == -1 and rng.random() < 0.2 else "p" * 700 if f == -2 and rng.random() < 0.2 else mv(rng, rng.randrange(1, 14), False)))
        else: return o + ["tt -1 " + "n" * 700, "tt %d %s" % (rng.choice((-1, -2)), mv(rng, rng.choice((4, 40)), True)), "tt -1 " + "n" * 700] + ["tp"] * 5 + ["tt -2 " + "p" * 700]
    return o
def g_heap(rng, n, size):
    o = ["new %d" % rng.randrange(2)]; np_ = rng.choice((3, 20, 1000))
    grow = True
    for i in range(n):
        r = rng.random()
        if rng.random() < 0.04: grow = not grow
        x = rng.randrange(size)
        if r < (0.6 if grow else 0.15): o.append("hp %d %d" % (x, rng.randrange(np_) if rng.random() < 0.9 else i))
        elif r < (0.75 if grow else 0.4): o.append("hr %d" % x)
        elif r < 0.85: o.append("hk")
        else: o.append("ho")
    return o + ["ho"] * 12
def g_list(rng, n, size):
    o = ["new 0"]
    for i in range(n):
        r = rng.random(); l, d = rng.sample(range(4), 2); x = rng.randrange(size)
        if r < 0.2: o.append("la %d %d" % (l, x))
        elif r < 0.35: o.append("lp %d %d" % (l, x))
        elif r < 0.42: o.append("lA %d %d" % (l, d))
        elif r < 0.49: o.append("lP %d %d" % (l, d))
        elif r < 0.57: o.append("lf %d" % l)
        elif r < 0.65: o.append("ll %d" % l)
        elif r < 0.73: o.append("lr %d" % x)
        elif r < 0.78: o.append("lc %d" % l)
        elif r < 0.88: o.append("li %d %s" % (l, " ".join(str(y) for y in range(size) if rng.random() < 0.3)))
        else: o.append("ln %d %s" % (rng.randrange(2), " ".join(str(rng.randrange(4)) for _ in range(rng.randrange(1, 5)))))
    return o + ["li %d" % l for l in range(4)]

def perms(rng, n, many):
    """every order of insertion of n keys, each with some orders of removal"""
    for p in itertools.permutations(range(n)):
        for _ in range(many):
            e = list(range(n)); rng.shuffle(e)
            yield ["new 0"] + ["ti %d" % k for k in p] + ["tt %d %s" % (rng.choice(p), mv(rng, 6, True)) if rng.random() < 0.3 else "tn %d" % rng.randrange(n)] + \
                  sum((["te %d" % k, "tt -1 " + "n" * 9] for k in e), [])
def heaps(rng, n, many):
    for p in itertools.permutations(range(n)):
        for _ in range(many):
            e = list(range(n)); rng.shuffle(e); cut = rng.randrange(n)
            yield ["new %d" % rng.randrange(2)] + ["hp %d %d" % (i, k) for i, k in enumerate(p)] + ["hr %d" % k for k in e[:cut]] + \
                  ["hp %d %d" % (k, rng.randrange(n)) for k in e[:cut // 2]] + ["ho"] * (n - cut + cut // 2 + 1)
def run(c):
    exe = harness(); rng = c.rng
    S = []
    for i in range(c.n(40, 400)): S.append(g_map(rng, c.n(350, 700), rng.choice((12, 70, 70, 150, 290)), rng.choice((6, 60, 200, 300))))
    for i in range(c.n(40, 400)): S.append(g_tree(rng, c.n(250, 600), rng.choice((8, 30, 120, 300))))
    for i in range(c.n(60, 400)): S.append(g_heap(rng, c.n(250, 600), rng.choice((6, 15, 40, 200))))
    for i in range(c.n(60, 400)): S.append(g_list(rng, c.n(250, 600), rng.choice((5, 12, 40))))
    P = list(perms(rng, c.n(6, 7), c.n(3, 6))) + list(heaps(rng, c.n(6, 7), c.n(3, 6)))
    for i in range(0, len(P), 40): S.append(sum(P[i:i + 40], []))
    c.conform(exe, ["\n".join(s) + "\n" for s in S], "ContainersTrace", batch=2000)
    c.assumptions += ["keys of the ordered tree are distinct, as everywhere in the code", "an element refused by a unique setter is not offered again"]
