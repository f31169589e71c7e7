"""Schedules for ImapSession.tla: clients which pipeline arbitrary commands in arbitrary states."""
from citm_run import *

LISTNAMES = ["INBOX", "Work", "a/b", "With Space", "q\"uote", "back\\slash", "lit", "[Gmail]/x", "NIL", "&AOk-t"]
def qstr(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
def astr(x):
    if isinstance(x, list): return "(" + " ".join(sorted(astr(y).upper() for y in x)) + ")"
    return x.decode("latin1") if isinstance(x, bytes) else x
def boxname(x):
    x = astr(x)
    return "INBOX" if x.upper() == "INBOX" else x

class SessClient(Client):
    """records what the session does; every byte sent and received is one trace"""
    def __init__(self, w, j):
        super().__init__(w, j)
        self.q = []
        self.t = w.tr["s%d" % j] = []
        self.out = b""             # bytes not yet sent
        self.pend = []             # commands which are not answered
        self.sentidle = False
        self.sel = None; self.closing = False
    def tev(self, **k):
        self.t.append(k); self.w.raw("        [s%d] %s" % (self.j, k))
    def on_line(self, line):
        w = self.w
        w.raw("d%d< %r" % (self.j, line[:300]))
        if line.startswith(b"* OK") and self.st == "greet": self.st = "on"; return
        if line.startswith(b"+"): self.tev(e="plus"); return
        m = re.match(rb"\* (\d+) (EXISTS|EXPUNGE|RECENT|FETCH)", line)
        if m: return self.tev(e="un", k=m.group(2).decode())
        if line.startswith(b"* BYE"): return self.tev(e="bye")
        m = re.match(rb"\* OK \[(\w+)", line)
        if m: return self.tev(e="un", k=m.group(1).decode())
        m = re.match(rb"\* (LIST|LSUB|STATUS) (.*)$", line, re.S)
        if m: return self.tev(e="got", v=w.canon(m.group(1).decode(), m.group(2)))
        m = re.match(rb"\* (\w+)", line)
        if m: return self.tev(e="un", k=m.group(1).decode())
        m = re.match(rb"(t\d+) (OK|NO|BAD)(?: \[([A-Z-]+)[^]]*\])? ?(.*)$", line)
        if not m: return w.viol("client got an unparsable line %r" % line)
        tag, st = m.group(1).decode(), m.group(2).decode()
        tx = re.match(rb"note(\d+)$", m.group(4))
        self.tev(e="tag", id=int(tag[1:]), st=st, c=(m.group(3) or b"").decode(), t=int(tx.group(1)) if tx else -1)
        p = next((p for p in self.pend if p["id"] == int(tag[1:])), None)
        if not p: return w.viol("a tagged response for a command which is not outstanding: %r" % line[:100])
        self.pend.remove(p)
        if p["k"] == "login" and st == "OK": self.st = "auth"
        if p["k"] in ("sel", "exa"): self.sel = p["a"] if st == "OK" else None
        if p["k"] == "close": self.sel = None

class Sess(Sched):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.notes = 0
        self.prof = dict(dict(pipe=0.5, split=0.2, faults=0.0), **self.prof)
        self.boxes_fixed = True
    # --- nothing of the per-mailbox recording
    def ev(self, box, **k): pass
    def maybe_shut(self, b, but=None): pass
    def removable(self, b, u): return True
    def mirror(self, box, ev): pass
    def deliver_meta(self, c, box, ev): pass
    def verdict_meta(self, conn, tag, cmd, st, info): return []
    def server_fault(self, conn, tag, cmd, a): return None
    def order(self, out): return sorted(out, key=lambda l: 0 if l.startswith("w d") else 1)
    def canon(self, kind, data):
        t = tokens(data if isinstance(data, bytes) else data.encode("latin1"))
        if kind == "STATUS": return "STATUS %s %s" % (boxname(t[0]), " ".join(str(x).upper() for x in t[1][::2]))
        return "%s %s %s %s" % (kind, astr(t[0]), astr(t[1]), boxname(t[2]))
    # --- upstream
    def on_up_cmd(self, conn, t):
        if len(t) < 2: return
        tag, cmd = t[0], t[1].upper()
        cl = self.clients.get(conn.j)
        if not cl: return
        if cmd == "LOGIN": return cl.tev(e="up", k="login", a=astr(t[2]), b=astr(t[3]))
        if cmd in ("LIST", "LSUB"): return cl.tev(e="up", k=cmd.lower(), a=boxname(t[2]), b=astr(t[3]))
        if cmd == "STATUS": return cl.tev(e="up", k="status", a=boxname(t[2]), b=astr(t[3]))
        if cmd in ("CREATE", "DELETE"): return cl.tev(e="up", k=cmd.lower(), a=boxname(t[2]), b="")
        if cmd == "RENAME": return cl.tev(e="up", k="rename", a=boxname(t[2]), b=boxname(t[3]))
        if cmd in ("SUBSCRIBE", "UNSUBSCRIBE"): return cl.tev(e="up", k="unsub" if cmd[0] == "U" else "sub", a=boxname(t[2]), b="")
        if cmd == "APPEND":
            c = self.appended(t[-1])
            fl = fmask(t[3]) if isinstance(t[3], list) else 0
            conn.apcid = c
            return cl.tev(e="up", k="append", a=boxname(t[2]), b="%d %d" % (c, fl))
        if cmd not in ("SELECT", "EXAMINE", "UNSELECT", "FETCH", "UID", "STORE", "COPY", "IDLE", "NOOP", "ENABLE", "XKEYSYNC", "XKEYADD", "EXPUNGE", "CLOSE", "LOGOUT", "CAPABILITY"):
            self.viol("the citm sent the server %r" % (t,))
    def reply(self, conn, kind, tag, lines=()):
        """answer a passed-through command"""
        r = self.rng
        self.notes += 1
        st = r.choice(["OK", "OK", "OK", "NO", "NO", "BAD"])
        code = ""; shown = ""
        if st == "OK" and kind == "append": code, shown = "[APPENDUID 77 %d]" % r.randint(1, 99), ""
        elif r.random() < 0.3: code, shown = r.choice([("[ALERT]", "ALERT"), ("[HIGHESTMODSEQ 7]", ""), ("[CLOSED]", ""), ("[TRYCREATE]", "TRYCREATE"), ("[NOMODSEQ]", ""), ("[UNSEEN 3]", "UNSEEN")])
        conn.flush()
        for l in lines:
            conn.say("* " + l, [(None, dict(e="line", k=kind, v=self.canon(l.split(" ")[0], l.split(" ", 1)[1])))])
            if r.random() < 0.15: conn.say("* OK still working")
        conn.say("%s %s %snote%d" % (tag, st, code + " " if code else "", self.notes), [(None, dict(e="rep", k=kind, st=st, t=self.notes, c=shown))])
    def deliver_meta(self, c, box, ev):
        if box is None and c.j in self.clients: self.clients[c.j].tev(**ev)
    def folder_cmd(self, conn, tag, f, a):
        r = self.rng
        lines = []
        if f in ("LIST", "LSUB"):
            for n in r.sample(LISTNAMES, r.randint(0, 4)):
                nm = "{%d}\r\n%s" % (len(n), n) if n == "lit" else qstr(n) if n == "NIL" or not re.match(r"^[A-Za-z/]+$", n) or r.random() < .5 else n
                fl = " ".join(r.sample([r.choice(["\\Noselect", "\\Marked", "\\Unmarked"]), "\\HasNoChildren", "\\Noinferiors", "\\X"], r.randint(0, 3)))
                lines.append("%s (%s) %s %s" % (f, fl, r.choice(['"/"', '"."', "NIL"]), nm))
        if f == "STATUS" and r.random() < 0.8:
            n = boxname(a[0]); at = [str(x).upper() for x in a[1]]
            lines.append("STATUS %s (%s)" % (qstr(n) if "\n" not in n else "{%d}\r\n%s" % (len(n), n), " ".join("%s %d" % (x, r.randint(1, 9)) for x in at)))
        self.reply(conn, f.lower().replace("scribe", ""), tag, lines)
    def append_cmd(self, conn, tag):
        self.reply(conn, "append", tag); return True
    # --- clients
    def new_client(self):
        self.nj += 1
        cl = self.clients[self.nj] = SessClient(self, self.nj)
        self.opening = self.nj
        self.op("dn d%d" % self.nj)
        self.opening = None
        for o in self.clients.values():
            if o is not cl and o.st != "closed":
                for p in o.pend:
                    if p["k"] in ("delete", "rename"):
                        for n in {p["a"], p["b"]} - {""}: cl.tev(e="frz", a=n)
        return cl
    def cause(self, cl):
        if cl.st == "closed" or cl.caused == 1: return
        cl.caused = 1; cl.tev(e="cause")
    def client_closed(self, cl):
        if cl.st == "closed": return
        cl.tev(e="closed"); cl.st = "closed"; cl.out = b""; cl.cmd = None
    def send_cmd(self, cl, k, text, lit=0, a="", b="", ok=1, uid=0, tag=True, out=0):
        cl.ntag += tag
        ev = dict(e="cmd", k=k, id=cl.ntag if tag else 0, a=a, b=b, ok=ok, lit=lit, uid=uid, out=out)
        if tag: cl.pend.append(ev)
        if isinstance(text, str): text = text.encode("latin1")
        data = (b"t%d " % cl.ntag if tag else b"") + text + b"\r\n"
        self.stats["cmds"] += 1
        # how much of what goes before is still unsent is up to the schedule
        cl.q.append((data, ev))
        if k == "logout": cl.closing = True
    def transmit(self, cl):
        """some of the bytes the client has to send"""
        data = b""
        r = self.rng
        while cl.q:
            d, ev = cl.q.pop(0)
            if ev:
                cl.tev(**ev)
                self.raw("d%d> %r" % (cl.j, d[:200]))
                if ev["k"] in ("delete", "rename"): self.freeze(cl, ev)
            data += d
            if r.random() > self.prof["pipe"]: break
        if len(data) > 1 and r.random() < self.prof["split"]:
            n = r.randint(1, len(data) - 1)
            cl.q.insert(0, (data[n:], None)); data = data[:n]
        self.op("rx %s %s" % (cl.sid, data.hex()))
    def active(self): return [c for c in self.clients.values() if c.st != "closed"]
    def step(self):
        p, r = self.prof, self.rng
        ws = []
        conns = self.live()
        pr = [c for c in conns if c.cmds and not (c.idle and c.cmds[0][0][0].upper() != "DONE")]
        if pr: ws.append((p["process"], lambda: r.choice(pr).process()))
        dl = [c for c in conns if c.out]
        if dl: ws.append((p["deliver"], lambda: self.deliver(r.choice(dl), r.choice([1, 1, 1, 3]))))
        if self.connects: ws.append((p["connect"], lambda: self.do_connect(r.choice(sorted(self.connects)))))
        act = self.active()
        if len(act) < p["clients"]: ws.append((p["newclient"] * (6 if not act else 1), self.new_client))
        ready = [c for c in act if c.st != "greet" and not c.closing and len(c.pend) < 5 and len(c.q) < 4]
        if ready: ws.append((p["cmd"], lambda: self.any_cmd(r.choice(ready))))
        tx = [c for c in act if c.q and c.st != "greet"]
        if tx: ws.append((p["cmd"], lambda: self.transmit(r.choice(tx))))
        ws.append((p["newmsg"] / 2, self.dev_new)); ws.append((p["otherflags"] / 2, self.dev_flags)); ws.append((p["othergone"] / 2, self.dev_gone))
        if act: ws.append((p["quiet"], self.quiet))
        if act and p["dropcl"]: ws.append((p["dropcl"], lambda: self.drop_client(r.choice(act))))
        self.pick(ws)()
    def dev_gone(self):
        b = self.anybox()
        if len(b.msgs) > 1: self.srv_gone(b, self.rng.choice(sorted(b.msgs))); self.push()
    def any_cmd(self, cl):
        r = self.rng
        S = lambda *a, **k: self.send_cmd(cl, *a, **k)
        if cl.sentidle:
            cl.sentidle = False
            return S("done", "DONE", tag=False)
        name = lambda: r.choice(["INBOX", "Work", "Fold1", "a/b", "With Space", "inbox", "x.y", "NIL2"])
        def mb(n):
            """a mailbox argument, its number of literals"""
            x = r.random()
            if x < 0.25: return "{%d}\r\n%s" % (len(n), n), 1
            if x < 0.5 or " " in n or '"' in n: return qstr(n), 0
            return n, 0
        anon = cl.st == "on"
        x = r.random()
        if anon and x < 0.5 and not any(p["k"] == "login" for p in cl.pend):
            pw = r.choice(["pass", "pass", "pass", "wrong"])
            ta, la = mb("user"); tb, lb = mb(pw)
            return S("login", "LOGIN %s %s" % (ta, tb), lit=la + lb, a="user", b=pw, ok=int(pw == "pass"))
        k = r.choice("capa noop noop starttls enable unselect xkeysync bad selp list list lsub status status create delete rename sub unsub append append "
                     "check close expunge search fetch fetch store copy idle idle login logout sel sel sel sel exa exa nosel".split())
        if k == "logout" and r.random() < 0.6: return
        if k == "capa": S(k, "CAPABILITY")
        elif k == "noop": S(k, r.choice(["NOOP", "noop"]))
        elif k == "starttls": S(k, "STARTTLS")
        elif k == "enable": S(k, "ENABLE QRESYNC")
        elif k == "unselect": S(k, "UNSELECT")
        elif k == "xkeysync": S("bad", "XKEYADD")
        elif k == "bad": S(k, r.choice(["FROB", "SELECT", "FETCH 1:* (", "STORE 1 +FLAGS", "LIST \"\"", "NOOP x", "UID NOOP", "STATUS INBOX (NOTHING)", "APPEND INBOX"]))
        elif k == "selp": S(k, r.choice(["SELECT INBOX (QRESYNC (1 2))", "SELECT INBOX (CONDSTORE)"]))
        elif k in ("list", "lsub"):
            ref = r.choice(["", "", "a/"]); pat = r.choice(["*", "%", "Work", "a/*", "INBOX"])
            S(k, "%s %s %s" % (k.upper(), qstr(ref), pat if r.random() < .5 else qstr(pat)), a=ref, b=pat)
        elif k == "status":
            n = name(); t, l = mb(n); at = r.sample(["MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN"], r.randint(1, 5))
            S(k, "STATUS %s (%s)" % (t, " ".join(at)), lit=l, a=boxname(n), b=astr(at))
        elif k in ("create", "delete", "sub", "unsub"):
            n = r.choice(["Fold1", "Fold2", "a/b", "With Space"])
            if k in ("delete", "create") and cl.sel and r.random() < 0.5 and self.only(cl): n = cl.sel; k = "delete"
            t, l = mb(n)
            S(k, {"create": "CREATE", "delete": "DELETE", "sub": "SUBSCRIBE", "unsub": "UNSUBSCRIBE"}[k] + " " + t, lit=l, a=boxname(n))
        elif k == "rename":
            n1, n2 = r.sample(["Fold1", "Fold2", "a/b", "With Space"], 2)
            if cl.sel and r.random() < 0.4 and self.only(cl):
                if r.random() < .5: n1 = cl.sel
                else: n2 = cl.sel
            t1, l1 = mb(n1); t2, l2 = mb(n2)
            S(k, "RENAME %s %s" % (t1, t2), lit=l1 + l2, a=boxname(n1), b=boxname(n2))
        elif k == "append":
            if self.nextcid >= 118: return
            c = self.newcid(); plain = self.pool.plain[c] + b"appended %d\r\n" % c
            self.appending[plain] = c; self.append_plain[c] = plain
            f = r.choice([0, 4, 2, 6]); n = r.choice(["INBOX", "Work"]); t, l = mb(n)
            dt = r.choice(["", ' "01-Feb-2020 10:00:00 +0000"'])
            self.send_cmd(cl, k, ("APPEND %s%s%s {%d}\r\n" % (t, " (%s)" % fnames(f) if f or r.random() < .5 else "", dt, len(plain))).encode() + plain,
                          lit=l + 1, a=n, b="%d %d" % (c, f))
        elif k == "idle":
            if anon: return
            S(k, "IDLE"); cl.sentidle = True
        elif k == "login": 
            if anon: return
            S(k, "LOGIN user pass", a="user", b="pass")
        elif k == "logout": S(k, "LOGOUT")
        elif k in ("sel", "exa"):
            n = r.choice(["INBOX", "Work", "inbox"]); t, l = mb(n)
            S(k, "%s %s" % ("SELECT" if k == "sel" else "EXAMINE", t), lit=l, a=boxname(n))
        elif k == "nosel":
            S("sel", "SELECT Nope", a="Nope", ok=0)
        elif k == "check": S(k, "CHECK")
        elif k == "close": S(k, "CLOSE")
        elif k == "expunge": S(k, r.choice(["EXPUNGE", "UID EXPUNGE 1:9999"]))
        elif k == "search":
            u = r.random() < .5
            S(k, ("UID " if u else "") + "SEARCH " + r.choice(["ALL", "SEEN", "1:*", "NOT FLAGGED"]), uid=int(u))
        elif k == "fetch":
            u = r.random() < .5
            S(k, ("UID " if u else "") + "FETCH " + r.choice(["1:*", "1"] if not u else ["1:*"]) + r.choice([" (FLAGS)", " (UID BODY.PEEK[])", " FLAGS"]), uid=int(u))
        elif k == "store":
            u = r.random() < .5
            S(k, ("UID " if u else "") + "STORE 1:* %sFLAGS%s (%s)" % (r.choice(["+", "-"]), r.choice(["", ".SILENT"]), r.choice(["\\Seen", "\\Flagged"])), uid=int(u))
        elif k == "copy":
            u = r.random() < .5
            n = r.choice(["INBOX", "Work", "Nope"]); t, l = mb(n)
            S(k, ("UID " if u else "") + "COPY 1:* " + t, lit=l, uid=int(u))
    def only(self, cl): return self.prof["clients"] == 1
    def freeze(self, cl, ev):
        """other sessions may find these mailboxes in use"""
        for o in self.clients.values():
            if o is not cl and o.st != "closed":
                for n in {ev["a"], ev["b"]} - {""}: o.tev(e="frz", a=n)
    def quiet(self):
        for cl in self.active():
            if cl.st != "greet":
                while cl.q: self.transmit(cl)
        self.idle_push(); self.settle()
        self.stats["quiets"] += 1
        for cl in self.clients.values():
            if cl.st == "greet": self.viol("no greeting")
            if getattr(cl, "quieted", False): continue
            cl.tev(e="quiet", open=int(cl.st != "closed"))
            if cl.st == "closed": cl.quieted = True
    def finale(self):
        self.quiet()
        for cl in self.active():
            if cl.sentidle: self.send_cmd(cl, "done", "DONE", tag=False); cl.sentidle = False
            self.send_cmd(cl, "logout", "LOGOUT")
        self.quiet()
        if self.active(): self.viol("a session is still open after its LOGOUT")
    def mkbox(self, name):
        b = super().mkbox(name); self.tr.pop(name, None)
        self.srv_new(b, self.newcid(), 0)
        return b
CLASSES["Sess"] = Sess

# names which are no directories of their own below the mail directory (no more than three "..": the schedule's own scratch directory)
OUTSIDE = ["..", "../x", "a/../../x", "../../victim/mail/INBOX", "../../victim", "../../../outside", "../keys", "INBOX/../..", "/abs", "/", "x/", "a//b",
           ".", "./INBOX", "cur", "INBOX/cur", "new/x", "tmp", "a/tmp/b", "INBOX/.cache", ".invalid", "Work/.cache.tmp", "", "a/..", "../fingerprints", "../../user/mail/INBOX"]
INSIDE = ["x\ny", "..a", "a..b", "...", ".x", "Cur", "a.cur/b", ".cachex", "INBOX.."]
class Names(Sess):
    """mailbox names which would lead out of the mail directory"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for d, n in (("root/victim/mail/INBOX/cur", "1700000000.1,7,7,5.host:2,"), ("root/victim/mail/INBOX/new", "x"), ("root/victim/keys", "mykey.pem"), ("outside/cur", "y"), ("x", "z")):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
            with open(os.path.join(self.dir, d, n), "w") as f: f.write("theirs")
        self.before = None
    def tree(self):
        """everything outside of the user's mail directory (and of the notes about fingerprints)"""
        t = {}
        for d, ds, fs in os.walk(self.dir):
            rel = os.path.relpath(d, self.dir)
            if rel in ("root/user/mail", "root/user/fingerprints"): ds[:] = []; continue
            t[rel] = "dir"
            for f in fs:
                try: t[os.path.join(rel, f)] = open(os.path.join(d, f), "rb").read()
                except OSError: pass
        return t
    def quiet(self):
        super().quiet()
        t = self.tree()
        if self.before is None: self.before = t; return
        ch = sorted(x for x in set(t) | set(self.before) if t.get(x) != self.before.get(x))
        for cl in self.clients.values(): cl.tev(e="tree", out=ch)
    def on_up_cmd(self, conn, t):
        super().on_up_cmd(conn, t)
        cmd = t[1].upper() if len(t) > 1 else ""
        n = {"SELECT": 2, "EXAMINE": 2, "UID": 4}.get(cmd)
        if n and len(t) > n and (cmd != "UID" or t[2].upper() == "COPY") and astr(t[n]) in OUTSIDE: self.viol("the citm sent the server %r" % (t,))
    def any_cmd(self, cl):
        r = self.rng
        if cl.sentidle or cl.st == "on" or r.random() < 0.35: return super().any_cmd(cl)
        S = lambda *a, **k: self.send_cmd(cl, *a, **k)
        bad = r.random() < 0.75
        n = r.choice(OUTSIDE if bad else INSIDE)
        self.stats["outside" if bad else "inside"] = self.stats.get("outside" if bad else "inside", 0) + 1
        def mb(n):
            if "\n" in n or r.random() < 0.3: return "{%d}\r\n%s" % (len(n), n), 1
            return qstr(n), 0
        t, l = mb(n)
        o = int(bad)
        k = r.choice("sel sel sel exa status delete rename rename create append copy sub".split())
        if k in ("sel", "exa"): S(k, "%s %s" % ("SELECT" if k == "sel" else "EXAMINE", t), lit=l, a=n, ok=0, out=o)
        elif k == "status": S(k, "STATUS %s (MESSAGES UNSEEN)" % t, lit=l, a=n, b=astr(["MESSAGES", "UNSEEN"]), out=o)
        elif k in ("delete", "create", "sub"): S(k, {"create": "CREATE", "delete": "DELETE", "sub": "SUBSCRIBE"}[k] + " " + t, lit=l, a=n, out=o)
        elif k == "rename":
            m = r.choice(["Fold1", "Fold2"] + (INSIDE if bad else []))
            x = [(n, (t, l)), (m, mb(m))]
            if r.random() < .5: x.reverse()
            if x[0][0] == x[1][0]: return
            S(k, "RENAME %s %s" % (x[0][1][0], x[1][1][0]), lit=x[0][1][1] + x[1][1][1], a=x[0][0], b=x[1][0], out=o)
        elif k == "append":
            if self.nextcid >= 118: return
            c = self.newcid(); plain = self.pool.plain[c] + b"appended %d\r\n" % c
            self.appending[plain] = c; self.append_plain[c] = plain
            self.send_cmd(cl, k, ("APPEND %s {%d}\r\n" % (t, len(plain))).encode() + plain, lit=l + 1, a=n, b="%d %d" % (c, 0), out=o)
        elif k == "copy":
            u = r.random() < .5
            S(k, ("UID " if u else "") + "COPY 1:* " + t, lit=l, uid=int(u), out=o)
CLASSES["Names"] = Names
