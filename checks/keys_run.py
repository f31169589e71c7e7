"""Schedules for KeySync.tla: keys come and go on the account while sessions append, drop, fail and restart."""
from citm_run import *
NAMES = ["mykey", "other", "peer2", "peer3", "peer4"]

class Keys(Sched):
    def __init__(self, exe, pool, seed, prof, scratch, verbose=False):
        prof = dict(dict(boxes=["Work"], known_keys=False, steps=150, init=2, clients=2, append=5, fetch=.5, search=0, expunge=0, copy=0, store=.3,
                         examine=0, stall=0, newmsg=0, otherflags=0, othergone=0, dropcl=.15, dropup=.15, logout=.5, die=.15, keys=2.5, mine=.12, xno=.1), **prof)
        super().__init__(exe, pool, seed, prof, scratch, verbose)
        self.kt = []
        self.fprx = {fpr(os.path.join(KEYS, n + ".pub")): i for i, n in enumerate(NAMES)}
        self.hexx = {i: f for f, i in self.fprx.items()}
        self.pems = {f: open(os.path.join(KEYS, NAMES[i] + ".pub")).read() for f, i in self.fprx.items()}
        ks = [f for f in self.fprx if self.rng.random() < .5]
        self.account_keys = {f: self.pems[f] for f in ks}
        self.msgs_seen = set()
        self.xk = None
    def kev(self, **k):
        self.kt.append(k); self.raw("        [keys] %s" % k)
    def ev(self, box, **k): pass
    def maybe_shut(self, b, but=None): pass
    def client_closed(self, cl):
        cl.caused = cl.caused or 1
        super().client_closed(cl)
    def run(self):
        super().run()
        self.tr = {"keys": self.kt}
        return self
    def idx(self, f): return self.fprx.get(f.lower(), 99)
    # --- what the citm says
    def on_up_cmd(self, conn, t):
        if len(t) < 2: return super().on_up_cmd(conn, t)
        cmd = t[1].upper()
        if cmd == "XKEYSYNC":
            self.xk = conn
            conn.told = None
            self.kev(e="xk", k=conn.k, l=[self.idx(x) for x in t[2:]])
        elif cmd == "XKEYADD":
            tmp = os.path.join(self.dir, "up.pem"); open(tmp, "wb").write(t[2] if isinstance(t[2], bytes) else t[2].encode())
            self.kev(e="xa", k=conn.k, f=self.idx(fpr(tmp)))
        elif conn.j and cmd not in ("LOGIN", "CAPABILITY", "APPEND"): self.kev(e="serve", j=conn.j)
        super().on_up_cmd(conn, t)
    def appended(self, data):
        text = data if isinstance(data, bytes) else data.encode("latin1")
        c = super().appended(data)
        return c
    def append_arrives(self, conn, data):
        out = self.op("dec %s %s" % (os.path.join(KEYS, "mykey.pem"), data.hex()))
        l = next((x for x in out if x.startswith("recips ")), None)
        if l is None: self.viol("an APPEND reached the server which this device cannot read"); return
        self.kev(e="ap", j=conn.j, r=[self.idx(x) for x in l.split(" ")[1].split(",")])
    def op1(self, line):
        out = super().op1(line)
        d = os.path.join(self.root, "user", "mail", "INBOX", "cur")
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f in self.msgs_seen: continue
                self.msgs_seen.add(f)
                m = re.search(rb"following fingerprint:\r\n\r\n    ([0-9a-fA-F]+)\r\n", open(os.path.join(d, f), "rb").read())
                self.kev(e="al", f=self.idx(m.group(1).decode()) if m else 98)
        return out
    def conn_closed(self, c):
        if c is self.xk:
            self.xk = None; self.kev(e="xend", k=c.k)
        super().conn_closed(c)
    # --- the server
    def deliver_meta(self, c, box, ev):
        if box == "keys": self.kev(**ev); 
        else: super().deliver_meta(c, box, ev)
        if box == "keys" and ev["e"] == "de" and ev["f"] == 0 and getattr(c, "user_stage", False):
            self.dying = set(self.active())
            for cl in self.active(): self.cause(cl)
        if box == "keys" and ev["e"] == "ok" and not ev["ok"]:
            for cl in self.active(): self.cause(cl)
        if box == "keys" and ev["e"] == "ok" and ev["ok"] and ev["w"] == "sync": c.user_stage = True
    def tell_keys(self, c):
        have, keys = c.told, self.account_keys
        l = [("de", f) for f in sorted(have - set(keys))] + [("cr", f) for f in sorted(set(keys) - have)]
        self.rng.shuffle(l)
        for w, f in l:
            meta = [("keys", dict(e=w, k=c.k, f=self.fprx[f]))]
            if w == "de": c.say("* XKEYSYNC DELETED " + (f.upper() if self.rng.random() < .3 else f), meta)
            else: c.say("* XKEYSYNC CREATED {%d}\r\n%s" % (len(keys[f]), keys[f]), meta)
        c.told = set(keys)
    def server_fault(self, conn, tag, cmd, a):
        f = super().server_fault(conn, tag, cmd, a)
        return f
    # --- other devices
    def key_change(self):
        r = self.rng
        f = r.choice([self.hexx[i] for i in range(1, 5)])
        if r.random() < self.prof["mine"]: f = self.hexx[0]
        if f in self.account_keys: del self.account_keys[f]
        elif f != self.hexx[0]: self.account_keys[f] = self.pems[f]
        c = self.xk
        if c and not c.dead and c.xkey and c.told is not None and r.random() < .8: self.tell_keys(c)
    def reboot(self):
        self.kev(e="restart"); self.xk = None
        super().reboot()
    def quiet(self):
        c = self.xk
        if c and not c.dead and c.xkey and c.told is not None: self.tell_keys(c)
        super().quiet()
        if not self.crashed:
            self.kev(e="quiet", a=sorted(self.fprx[f] for f in self.account_keys), live=any(c.st in ("auth", "sel") for c in self.active()))
    def finale(self):
        self.prof = dict(self.prof, xno=0) 
        super().finale()
    def step(self):
        p = self.prof
        if self.rng.random() < p["keys"] / 30: return self.key_change()
        super().step()
    def cmd_append(self, cl):
        self.kev(e="apc", j=cl.j)
        super().cmd_append(cl)

# the key-sync commands of the server connection, with their deliveries recorded
def c_xkeysync(self, tag, a):
    w = self.w
    if not isinstance(w, Keys): return SConn._c_xkeysync(self, tag, a)
    self.told = {x.lower() for x in a}
    w.tell_keys(self)
    self.say("* XKEYSYNC OK"); self.say("+ OK"); self.xkey = tag
def c_xkeyadd(self, tag, a):
    w = self.w
    if not isinstance(w, Keys): return SConn._c_xkeyadd(self, tag, a)
    if w.rng.random() < w.prof["xno"]: return self.say("%s NO not added" % tag, [("keys", dict(e="ok", k=self.k, w="add", ok=False))])
    SConn._c_xkeyadd(self, tag, a)
    d, m = self.out.pop(); self.out.append((d, [("keys", dict(e="ok", k=self.k, w="add", ok=True))]))
def c_append(self, tag, a):
    if isinstance(self.w, Keys): self.w.append_arrives(self, a[-1] if isinstance(a[-1], bytes) else a[-1].encode("latin1"))
    return SConn._c_append(self, tag, a)
def process(self):
    if isinstance(self.w, Keys) and self.cmds[0][0][0].upper() == "DONE" and self.xkey and not self.idle:
        self.cmds.pop(0); tag, self.xkey = self.xkey, None
        return self.say("%s OK xkeysync" % tag, [("keys", dict(e="ok", k=self.k, w="sync", ok=True))])
    return SConn._process(self)
for n, f in (("c_xkeysync", c_xkeysync), ("c_xkeyadd", c_xkeyadd), ("c_append", c_append), ("process", process)):
    if not hasattr(SConn, "_" + n): setattr(SConn, "_" + n, getattr(SConn, n)); setattr(SConn, n, f)
CLASSES["Keys"] = Keys
