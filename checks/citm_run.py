"""Seeded random schedules for citm_drv.World, and a process pool to run them."""
import multiprocessing as mp
from citm_drv import *

DEF = dict(boxes=["INBOX", "Work"], steps=160, clients=2, init=4,
           process=6, deliver=7, connect=5, cmd=6, newmsg=1.6, otherflags=1.6, othergone=1.0, newclient=0.8, dropcl=0.05, dropup=0.05,
           quiet=0.35, crash=0, die=0, stall=0.15, rmfile=0, relay_no=0.04, connfail=0.03, batch=0.3,
           fetch=3, store=3, search=1, expunge=1, copy=1, append=0.6, noop=2, idle=1.5, close=0.3, select=0.4, examine=0.15, logout=0.15,
           status=0.2)

class Sched(World):
    def __init__(self, exe, pool, seed, prof, scratch, verbose=False):
        super().__init__(exe, pool, seed, dict(DEF, **prof), scratch, verbose)
        self.recov, self.auditing = set(), {}
        self.stallers = {}
        self.dying = set()
    # --- helpers
    def pick(self, ws):
        t = sum(w for w, _ in ws)
        x = self.rng.random() * t
        for w, a in ws:
            x -= w
            if x < 0: return a
        return ws[-1][1]
    def run(self):
        r, p = self.rng, self.prof
        for b in p["boxes"]:
            self.mkbox(b)
            for _ in range(r.randint(0, p["init"])): self.srv_new(self.boxes[b], self.newcid(), r.choice([0, 0, 4, 16, 6, 20]))
        self.boot()
        try:
            for _ in range(p["steps"]):
                if self.crashed: self.reboot()
                self.step()
            self.finale()
        except Stop: pass
        finally: self.close()
        return self
    def reboot(self):
        self.raw("=== crash")
        self.stats["crashes"] += 1
        self.crashed = False
        for b in self.boxes:
            cs = sorted(set(self.opfills.get(b, [])))
            m = self.mir.setdefault(b, {})
            for c in cs:
                if m.get(c, ("", 0))[0] == "fill": m[c] = ("lim", m[c][1])
            self.ev(b, e="crash", cs=cs)
            self.recov.add(b)
        self.opfills = {}; self.after = []
        for cl in self.clients.values(): cl.st = "closed"; cl.box = None; cl.cmd = None
        for c in self.conns.values(): c.dead = True; c.att = None; c.out = []; c.cmds = []
        self.dying = set()
        self.connects = {}; self.auditing = {}; self.stallers = {}
        self.clients = {}; self.conns = {}
        self.tagbox = {}
        self.pr.close()
        self.boot()
        self.op("now %d" % self.now)
    def finale(self):
        for _ in range(6):
            if self.crashed: self.reboot()
            self.op("crash 0 -1")
            self.quiet()
            if not self.crashed: break
        for cl in list(self.active()):
            if cl.cmd == "idle": self.done_idle(cl); self.settle()
        for b in self.prof["boxes"]:
            cl = next((c for c in self.active() if c.st in ("auth", "sel") and c.cmd is None), None)
            if not cl:
                cl = self.new_client(); self.settle()
                self.login(cl)
                if cl.st != "auth": self.viol("LOGIN with the right password fails: %s %s" % (cl.st, cl.cmd))
            self.cmd_select(cl, b, False); self.settle()
            if cl.st != "sel": self.viol("SELECT of an existing mailbox fails")
            self.cmd_audit(cl); self.settle()
            if cl.cmd: self.viol("a FETCH never ends")
            self.quiet()
    def step(self):
        p, r = self.prof, self.rng
        ws = []
        conns = self.live()
        pr = [c for c in conns if c.cmds and not (c.idle and c.cmds[0][0][0].upper() != "DONE")]
        if pr: ws.append((p["process"], lambda: r.choice(pr).process()))
        # a client which does not read stops its own upstream connection from being read, too
        dl = [c for c in conns if c.out and c.j not in self.stallers]
        if dl: ws.append((p["deliver"], lambda: self.do_deliver(r.choice(dl))))
        if self.connects: ws.append((p["connect"], self.some_connect))
        act = self.active()
        if len(act) < p["clients"]: ws.append((p["newclient"] * (6 if not act else 1), self.new_client))
        ready = [c for c in act if (c.cmd is None and c.st in ("login0", "auth", "sel")) or c.idling]
        if ready: ws.append((p["cmd"], lambda: self.client_cmd(r.choice(ready))))
        ws.append((p["newmsg"], self.dev_new)); ws.append((p["otherflags"], self.dev_flags)); ws.append((p["othergone"], self.dev_gone))
        if act:
            ws.append((p["dropcl"], lambda: self.drop_client(r.choice(act))))
            ws.append((p["quiet"], self.quiet))
        if conns: ws.append((p["dropup"], lambda: self.drop_up(r.choice(conns))))
        if p["crash"]: ws.append((p["crash"], lambda: self.op("crash %d %d" % (r.randint(1, 25), r.choice([-1, -1, 0, 1, 3, 9])))))
        if p["die"]: ws.append((p["die"], lambda: self.op("die")))
        if self.stallers: ws.append((2, self.unstall))
        if p["rmfile"] and not act and not conns: ws.append((p["rmfile"] * 10, self.rm_file))
        self.pick(ws)()
    def active(self): return [c for c in self.clients.values() if c.st != "closed"]
    def some_connect(self):
        i = self.rng.choice(sorted(self.connects))
        j = self.connects[i]
        ok = True
        if j and self.rng.random() < self.prof["connfail"]:
            ok = False; self.cause(self.clients[j])
        self.do_connect(i, ok)
    def do_deliver(self, c):
        busy = any(cl.cmd for cl in self.active())
        n = 1
        if not busy and self.rng.random() < self.prof["batch"]: n = self.rng.randint(2, 6)
        self.deliver(c, n)
    def unstall(self):
        j = self.rng.choice(sorted(self.stallers))
        del self.stallers[j]
        self.op("stall d%d 0" % j)
    # --- other devices
    def anybox(self): return self.boxes[self.rng.choice(self.prof["boxes"])]
    def push(self):
        if self.rng.random() < 0.8: self.idle_push()
    def dev_new(self):
        if self.nextcid >= 118: return
        self.srv_new(self.anybox(), self.newcid(), self.rng.choice([0, 0, 0, 4, 16, 2])); self.push()
    def dev_flags(self):
        b = self.anybox()
        if b.msgs:
            self.srv_flags(b, b.msgs[self.rng.choice(sorted(b.msgs))], self.rng.choice([0, 1, 2, 4, 16, 20, 6, 31])); self.push()
    def dev_gone(self):
        b = self.anybox()
        us = [u for u in sorted(b.msgs) if self.removable(b, u)]
        if us: self.srv_gone(b, self.rng.choice(us)); self.push()
    # --- faults
    def drop_client(self, cl):
        self.cause(cl)
        self.op("%s %s" % (self.rng.choice(["eof", "err"]), cl.sid))
    def drop_up(self, c):
        if c.j: self.cause(self.clients[c.j])
        else:
            # the user fails with its connection; until all of its sessions have ended, others join a failed user
            self.dying = set(self.active())
            for cl in self.active(): self.cause(cl)
        self.op("err " + c.sid)
    def rm_file(self):
        b = self.anybox()
        if b.name in self.recov: return
        d = os.path.join(self.root, "user", "mail", b.name, "cur")
        if not os.path.isdir(d): return
        fs = sorted(os.listdir(d))
        if not fs: return
        f = self.rng.choice(fs)
        u = int(f.split(",")[1])
        cid = b.msgs[u].cid if u in b.msgs else getattr(b, "cid_of", {}).get(u)
        if cid is None: return self.viol("file %s names a UID the server never used" % f)
        os.remove(os.path.join(d, f))
        self.ev(b.name, e="rmf", cs=[cid])
    # --- rest points
    def quiet(self):
        for j in sorted(self.stallers): self.op("stall d%d 0" % j)
        self.stallers = {}
        self.idle_push()
        self.settle()
        if self.crashed: return
        self.idle_push(); self.settle()
        # an upstream connection which is not idling learns of changes when something makes it talk
        for c in self.live():
            if c.box and not c.idle and not c.cmds: c.flush()
        self.settle()
        if self.crashed: return
        self.stats["quiets"] += 1
        for cl in self.active():
            if cl.cmd and cl.cmd != "idle": self.viol("%s of session %s is never answered" % (cl.cmd, cl.sid))
        for b in self.boxes:
            if any(cl.box == b for cl in self.active()): self.ev(b, e="quiet")
        for cl in self.active():
            if cl.st == "sel" and cl.cmd is None:
                self.cmd(cl, "noop", "NOOP")
                if self.crashed: return
    # --- client commands
    def cmd(self, cl, k, text, **ev): cl.start(k, text, **ev)
    def client_cmd(self, cl):
        r, p = self.rng, self.prof
        if cl.idling: return self.done_idle(cl)
        if cl.cmd: return
        if cl.st == "login0":
            self.dying = {c for c in self.dying if c.st != "closed" and c is not cl}
            if self.dying: self.cause(cl); self.dying.add(cl)
            return self.cmd(cl, "login", "LOGIN user pass")
        ws = [(p["append"], self.cmd_append), (p["logout"] * 0.5, self.cmd_logout), (p["status"], self.cmd_status)]
        if cl.st == "auth":
            free = [b for b in p["boxes"] if b not in self.auditing]
            if free: ws.append((6, lambda c: self.cmd_select(c, r.choice(free), r.random() < p["examine"])))
        else:
            ws += [(p[k], getattr(self, "cmd_" + k)) for k in ("fetch", "store", "search", "expunge", "copy", "noop", "idle", "close")]
            free = [b for b in p["boxes"] if b not in self.auditing]
            if free: ws.append((p["select"], lambda c: self.cmd_select(c, r.choice(free), r.random() < p["examine"])))
        self.pick(ws)(cl)
    def done_idle(self, cl):
        cl.idling = False
        cl.send("DONE\r\n")
    def cmd_select(self, cl, box, exa):
        if cl.box: cl.left()
        cl.box = box; cl.ro = exa
        if box in self.recov: self.auditing[box] = cl
        self.cmd(cl, "exa" if exa else "sel", "%s %s" % ("EXAMINE" if exa else "SELECT", box))
    def on_cmd_done(self, cl, cmd, st, line):
        box = cl.box
        if cmd in ("sel", "exa"):
            if st == "OK" and self.auditing.get(box) is cl:
                self.after.append(lambda: self.cmd_audit(cl))
            elif self.auditing.get(box) is cl: del self.auditing[box]
        if cmd == "fetch" and st == "OK" and self.auditing.get(box) is cl:
            del self.auditing[box]; self.recov.discard(box)
            m = self.mir.setdefault(box, {})
            for c in m:
                if m[c][0] == "lim": m[c] = ("fill", m[c][1])
    def client_closed(self, cl):
        for b in [b for b in self.auditing if self.auditing[b] is cl]: del self.auditing[b]
        super().client_closed(cl)
    def cmd_audit(self, cl):
        if cl.st != "sel" or cl.cmd: return
        self.cmd(cl, "fetch", "UID FETCH 1:* (UID FLAGS BODY.PEEK[])", uid=1, ks=list(range(1, cl.n + 1)), bod=1)
    def some(self, cl):
        """a set of messages: (text, positions, by uid?) or None"""
        if cl.n == 0: return None
        r = self.rng
        x = r.random()
        if x < 0.25: ks = list(range(1, cl.n + 1)); return ("1:*", ks, r.random() < 0.5)
        ks = sorted(r.sample(range(1, cl.n + 1), min(cl.n, r.choice([1, 1, 1, 2, 3]))))
        if all(cl.uids[k - 1] for k in ks) and r.random() < 0.6: return (compact([cl.uids[k - 1] for k in ks]) if r.random() < .5 else
                                                                        ",".join(str(cl.uids[k - 1]) for k in ks), ks, True)
        return (compact(ks), ks, False)
    def cmd_fetch(self, cl):
        s = self.some(cl)
        if not s: return self.cmd_audit(cl)
        r = self.rng
        at = r.choice(["(UID FLAGS)", "(UID FLAGS)", "FLAGS", "(UID FLAGS BODY.PEEK[])", "(UID FLAGS BODY.PEEK[])", "(UID BODY[] INTERNALDATE RFC822.SIZE)",
                       "(UID INTERNALDATE RFC822.SIZE BODY.PEEK[])", "BODY[]"])
        if r.random() < self.prof["stall"] and cl.j not in self.stallers:
            self.stallers[cl.j] = 1; self.op("stall d%d 1" % cl.j)
        bod = "BODY" in at
        self.cmd(cl, "fetch", "%sFETCH %s %s" % ("UID " if s[2] else "", s[0], at), uid=int(s[2]), ks=s[1], bod=int(bod), np=int("BODY[]" in at))
    def cmd_store(self, cl):
        s = self.some(cl)
        if not s: return self.cmd_noop(cl)
        r = self.rng
        sg = r.choice(["+", "+", "-", "="]); sil = r.random() < 0.35
        m = r.choice([1, 2, 4, 8, 16, 16, 20, 6])
        self.cmd(cl, "store", "%sSTORE %s %sFLAGS%s (%s)" % ("UID " if s[2] else "", s[0], "" if sg == "=" else sg, ".SILENT" if sil else "", fnames(m)),
                 uid=int(s[2]), ks=s[1], sg=sg, f=m, sil=int(sil))
    def cmd_search(self, cl):
        r = self.rng
        txt, m, v = r.choice([("SEEN", 4, 4), ("UNSEEN", 4, 0), ("DELETED", 16, 16), ("UNDELETED", 16, 0), ("FLAGGED", 2, 2), ("SEEN UNDELETED", 20, 4),
                              ("ANSWERED", 1, 1), ("ALL", 0, 0), ("NOT SEEN", 4, 0), ("DRAFT", 8, 8)])
        uid = all(cl.uids) and r.random() < 0.5
        self.cmd(cl, "search", ("UID " if uid else "") + "SEARCH " + txt, uid=int(uid), m=m, v=v)
    def cmd_expunge(self, cl):
        s = self.some(cl)
        if s and s[2] and self.rng.random() < 0.5: self.cmd(cl, "expunge", "UID EXPUNGE " + s[0], uid=1, ks=s[1])
        else: self.cmd(cl, "expunge", "EXPUNGE")
    def cmd_copy(self, cl):
        s = self.some(cl)
        if not s or len(self.prof["boxes"]) < 2: return self.cmd_noop(cl)
        dst = self.rng.choice([b for b in self.prof["boxes"] if b != cl.box])
        self.cmd(cl, "copy", "%sCOPY %s %s" % ("UID " if s[2] else "", s[0], dst), uid=int(s[2]), ks=s[1])
    def cmd_noop(self, cl): self.cmd(cl, "noop", self.rng.choice(["NOOP", "NOOP", "CHECK"]))
    def cmd_idle(self, cl): self.cmd(cl, "idle", "IDLE")
    def cmd_close(self, cl): self.cmd(cl, "close", "CLOSE")
    def cmd_logout(self, cl):
        self.cause(cl)
        self.cmd(cl, "logout", "LOGOUT")
    def cmd_status(self, cl): self.cmd(cl, "noop", "STATUS %s (MESSAGES)" % self.rng.choice(self.prof["boxes"]))
    def cmd_append(self, cl):
        if self.nextcid >= 118: return
        r = self.rng
        c = self.newcid()
        plain = self.pool.plain[c] + b"appended %d\r\n" % c
        self.appending[plain] = c; self.append_plain[c] = plain
        f = r.choice([0, 4, 2, 6]); self.append_flags[c] = f
        dst = r.choice(self.prof["boxes"])
        self.cmd(cl, "append", b"APPEND %s%s {%d}\r\n%s" % (dst.encode(), (" (%s)" % fnames(f)).encode() if f or r.random() < .5 else b"", len(plain), plain))

CLASSES = {}
class Hang(Exception): pass
def one(args):
    exe, pool, seed, prof, scratch = args[:5]
    cls = args[5] if len(args) > 5 else "Sched"
    w = (CLASSES.get(cls) or Sched)(exe, pool, seed, prof, scratch)
    def late(*a): raise Hang("a schedule which takes a fraction of a second is not finished after %d s: the citm hangs or spins" % LIMIT)
    err = None
    import signal
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try: w.run()
    except Hang as x:
        err = str(x)
        if w.pr: w.pr.p.kill()
    except vf.Infra as x: err = "infra: %s" % x
    except Exception as x:
        import traceback
        err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        shutil.rmtree(w.dir, ignore_errors=True)
    return dict(seed=seed, tr=w.tr, viol=w.violations, stats=w.stats, log=w.log if (w.violations or err) else None, err=err)
LIMIT = 120

def many(exe, pool, seeds, prof, scratch, procs=8, cls="Sched"):
    with mp.Pool(procs) as P:
        return P.map(one, [(exe, pool, s, prof, scratch, cls) for s in seeds], chunksize=4)

class LateCopyuid(Sched):
    """known finding: the copy vanishes from the server before the citm reads the COPYUID which names it"""
    def run(self):
        for b in self.prof["boxes"]: self.mkbox(b)
        self.srv_new(self.boxes["INBOX"], self.newcid(), 0)
        self.boot()
        try:
            a = self.new_client(); self.settle(); self.login(a); self.cmd_select(a, "Work", False); self.settle()
            b = self.new_client(); self.settle(); self.login(b); self.cmd_select(b, "INBOX", False); self.settle()
            self.cmd(b, "copy", "COPY 1 Work", uid=0, ks=[1])
            while True:
                c = next((c for c in self.live() if c.cmds and not c.idle), None)
                if not c: c = next((c for c in self.live() if c.cmds and c.cmds[0][0][0].upper() == "DONE"), None)
                if not c: break
                c.process()
            w = self.boxes["Work"]
            for u in sorted(w.msgs): self.srv_gone(w, u)
            self.settle()
            self.quiet()
        except Stop: pass
        finally: self.close()
        return self
CLASSES["LateCopyuid"] = LateCopyuid
