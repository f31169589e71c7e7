"""Drives the whole citm (harness/citm.c) between simulated mail clients and a simulated QRESYNC mail server, under a
seeded schedule, and records per mailbox the trace which ImaildirTrace.tla judges."""
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from imapio import *

KEYS = os.path.join(vf.HARN, "keys")
CAPS = "CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY"
WRAPS = "rename unlink remove rmdir mkdir fsync time".split()
ARCH = ["libcitm.a", "libfake_citm.a", "libimaildir.a", "libimap.a", "libcrypto.a", "libduvtls.a", "libduv.a", "libfakestream.a",
        "libdstr.a", "libcerts.a", "libtest_utils.a", "libacme.a", "libhttp.a", "libweb.a", "libapi_client.a"]

def compile_citm():
    return vf.compile_harness("citm", ["citm.c"], ARCH, flags=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])

class Died(Exception):
    """the harness process ended by itself (sanitizer report, abort)"""

class Proc:
    def __init__(self, exe, root, now=1700000000):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe, root, str(now)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=vf.ASAN_ENV, cwd=os.path.dirname(root))
    def op(self, line):
        try:
            self.p.stdin.write(line.encode() + b"\n"); self.p.stdin.flush()
        except OSError: pass
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l: raise Died(self.stderr())
            l = l.rstrip(b"\n").decode()
            if l == ".": return out
            out.append(l)
    def stderr(self):
        self.p.wait()
        self.err.seek(0)
        return self.err.read().decode("utf8", "replace")[-8000:]
    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        try: self.p.wait(10)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        for f in (self.p.stdout, self.err): f.close()

# ------------------------------------------------------------------ message contents
def fpr(pub):
    der = subprocess.run(["openssl", "rsa", "-pubin", "-in", pub, "-RSAPublicKey_out", "-outform", "DER"], capture_output=True).stdout
    return hashlib.sha256(der).hexdigest()

class Pool:
    """contents by cid: what the server holds and what a client must be shown (None: not for this device)"""
    def __init__(self, exe, n, scratch):
        self.srv, self.exp, self.kind = {}, {}, {}
        d = tempfile.mkdtemp(dir=scratch)
        pr = Proc(exe, d)
        for c in range(1, n + 1):
            rng = random.Random(c)
            size = rng.choice([0, 3, 200, 1500, 4090, 4096, 5000, 9000])
            hdr = "From: a%d@x\r\nSubject: s%d\r\n\r\n" % (c, c) if c % 5 else "From: a%d@x\r\n\r\n" % c
            plain = (hdr + "b%d " % c + "x" * size + "\r\n").encode()
            k = "n4m" if c % 7 == 3 else "plain" if c % 7 in (1, 5) else "enc"
            self.kind[c] = k
            if k == "plain":
                self.srv[c] = plain
                if b"Subject:" in plain: self.exp[c] = plain.replace(b"\nSubject:", b"\nSubject: NOT ENCRYPTED:", 1)
                else: self.exp[c] = plain.replace(b"\r\n\r\n", b"\r\nSubject: NOT ENCRYPTED: (no subject)\r\n\r\n", 1)
            else:
                keys = ["mykey.pub"] if k == "enc" else ["other.pub"]
                out = pr.op("enc %s %s" % (",".join(os.path.join(KEYS, x) for x in keys), plain.hex()))
                self.srv[c] = bytes.fromhex(out[0].split()[2])
                self.exp[c] = plain if k == "enc" else None
            self.plain = getattr(self, "plain", {}); self.plain[c] = plain
        pr.close()
        shutil.rmtree(d, ignore_errors=True)
        self.fprs = {k: fpr(os.path.join(KEYS, k + ".pub")) for k in ("mykey", "other", "peer2", "peer3")}
        self.by_exp = {v: c for c, v in self.exp.items() if v is not None}

# ------------------------------------------------------------------ the mail server
class Msg:
    limbo = None
    def __init__(self, uid, cid, flags, modseq, date):
        self.uid, self.cid, self.flags, self.modseq, self.date = uid, cid, flags, modseq, date

class Box:
    def __init__(self, name, uidvld):
        self.name, self.uidvld, self.uidnext, self.himod, self.msgs, self.gone = name, uidvld, 1, 1, {}, []
        self.ever = set()
    def bump(self):
        self.himod += 1
        return self.himod

class SConn:
    """one upstream connection, server side"""
    def __init__(self, w, sid, k):
        self.w, self.sid, self.k = w, sid, k
        self.lines = Lines(on_sync=lambda: self.say("+ go"))
        self.cmds, self.out = [], []
        self.box = None; self.ro = False; self.known = []; self.lastmod = 0
        self.idle = None; self.xkey = None; self.user = None; self.dead = False; self.att = None; self.j = None
        self.say("* OK hi")
    def say(self, text, meta=()):
        if isinstance(text, str): text = text.encode("latin1")
        self.out.append((text + b"\r\n", list(meta)))
    def recv(self, data):
        for l in self.lines.feed(data): self.arrive(l)
    # --- logged as soon as the citm writes it
    def arrive(self, line):
        self.w.raw("C%d> %r" % (self.k, line[:300]))
        t = tokens(line)
        self.cmds.append((t, line))
        self.w.on_up_cmd(self, t)
    # --- executed when the schedule says so
    def process(self):
        t, line = self.cmds.pop(0)
        w = self.w
        if t[0].upper() == "DONE":
            if self.idle:
                tag, self.idle = self.idle, None
                self.flush(); self.say("%s OK idled" % tag)
            elif self.xkey:
                tag, self.xkey = self.xkey, None
                self.say("%s OK xkeysync" % tag)
            return
        tag, cmd = t[0], t[1].upper()
        uid = cmd == "UID"
        if uid: cmd = t[2].upper(); a = t[3:]
        else: a = t[2:]
        f = getattr(self, "c_" + cmd.lower(), None)
        if f is None: raise vf.Infra("fake server: unknown command %r" % line)
        fault = w.server_fault(self, tag, cmd, a)
        if fault:
            self.flush()
            self.say("%s %s" % (tag, fault), w.verdict_meta(self, tag, cmd, "NO", None))
            return
        f(tag, a)
    def done(self, tag, code="", cmd=None, text="ok", info=None):
        self.flush()
        self.say("%s OK %s%s" % (tag, code + " " if code else "", text), self.w.verdict_meta(self, tag, None, "OK", info))
    def no(self, tag, text="no"):
        self.flush()
        self.say("%s NO %s" % (tag, text), self.w.verdict_meta(self, tag, None, "NO", None))
    # --- untagged updates
    def b(self): return self.w.boxes.get(self.box)
    def flush(self):
        b = self.b()
        if not b: return
        lost = [u for u in self.known if u not in b.msgs]
        if lost:
            self.say("* VANISHED " + compact(lost), self.w.gone_meta(self, b, lost))
            self.known = [u for u in self.known if u in b.msgs]
        # a server may announce new messages before or after what happened to the old ones
        old = len(self.known)
        first = self.w.rng.random() < 0.3
        if first: self.tell_new(b)
        for i, u in enumerate(self.known[:old]):
            m = b.msgs[u]
            if m.modseq > self.lastmod: self.fetchline(i + 1, m)
        self.lastmod = b.himod
        if not first: self.tell_new(b)
    def tell_new(self, b):
        new = sorted(u for u in b.msgs if u not in set(self.known))
        if new:
            self.known += new
            self.say("* %d EXISTS" % len(self.known))
    def fetchline(self, n, m, body=False):
        kw = "" if m.uid % 3 else " $Kw"
        fl = (fnames(m.flags) + kw).strip()
        head = "* %d FETCH (UID %d FLAGS (%s) MODSEQ (%d)" % (n, m.uid, fl, m.modseq)
        if not body:
            self.say(head + ")", [(self.box, dict(e="rxm", u=self.k, c=m.cid, f=m.flags))])
            return
        data = self.w.content(m)
        head += ' INTERNALDATE "%s" BODY[] {%d}\r\n' % (m.date, len(data))
        self.say(head.encode() + data + b")", [(self.box, dict(e="rxb", u=self.k, c=m.cid, f=m.flags, n4m=int(self.w.n4m(m))))])
    # --- commands
    def c_login(self, tag, a):
        u, p = [x.decode("latin1") if isinstance(x, bytes) else x for x in a[:2]]
        ok = self.w.passwords.get(u) == p
        if ok:
            self.user = u
            self.say("%s OK [%s] logged in" % (tag, CAPS))
        else: self.say("%s NO bad login" % tag)
    def c_capability(self, tag, a):
        self.say("* " + CAPS); self.say("%s OK done" % tag)
    def c_enable(self, tag, a):
        self.say("* ENABLED CONDSTORE QRESYNC"); self.say("%s OK enabled" % tag)
    def c_xkeysync(self, tag, a):
        have = {x for x in a}
        keys = self.w.account_keys
        for f in sorted(have - set(keys)): self.say("* XKEYSYNC DELETED " + f)
        for f in sorted(set(keys) - have): self.say("* XKEYSYNC CREATED {%d}\r\n%s" % (len(keys[f]), keys[f]))
        self.say("* XKEYSYNC OK"); self.say("+ OK")
        self.xkey = tag
    def c_xkeyadd(self, tag, a):
        pem = a[0].decode()
        tmp = os.path.join(self.w.dir, "k.pem"); open(tmp, "w").write(pem)
        self.w.account_keys[fpr(tmp)] = pem
        self.say("%s OK added" % tag)
    def c_select(self, tag, a, ro=False):
        name = a[0].decode("latin1") if isinstance(a[0], bytes) else a[0]
        if name.upper() == "INBOX": name = "INBOX"
        if self.box: self.flush(); self.say("* OK [CLOSED] closed")
        self.box = None
        b = self.w.boxes.get(name)
        if not b:
            self.say("%s NO no such mailbox" % tag, [(name, dict(e="unsel", u=self.k))]); return
        self.box, self.ro = name, ro
        self.known = sorted(b.msgs)
        self.lastmod = b.himod
        self.w.ev(name, e="ssel", u=self.k, ro=int(ro))
        self.say("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $Kw)")
        self.say("* %d EXISTS" % len(self.known))
        self.say("* 0 RECENT")
        self.say("* OK [UIDVALIDITY %d] v" % b.uidvld, [(name, dict(e="rxv", u=self.k, v=b.uidvld))])
        self.say("* OK [UIDNEXT %d] n" % b.uidnext)
        self.say("* OK [HIGHESTMODSEQ %d] h" % b.himod)
        if len(a) > 1 and isinstance(a[1], list) and a[1] and str(a[1][0]).upper() == "QRESYNC":
            vld, mod = int(a[1][1][0]), int(a[1][1][1])
            if vld == b.uidvld:
                lost = [u for u, m in b.gone if m > mod]
                if lost: self.say("* VANISHED (EARLIER) " + compact(lost), self.w.gone_meta(self, b, lost))
                for i, u in enumerate(self.known):
                    if b.msgs[u].modseq > mod: self.fetchline(i + 1, b.msgs[u])
        self.say("%s OK [READ-%s] selected" % (tag, "ONLY" if ro else "WRITE"), [(name, dict(e="rsel", u=self.k))])
    def c_examine(self, tag, a): self.c_select(tag, a, ro=True)
    def c_unselect(self, tag, a):
        self.say("%s OK unselected" % tag, [(self.box, dict(e="unsel", u=self.k))]); self.box = None
    def c_noop(self, tag, a): self.done(tag)
    def c_idle(self, tag, a):
        self.say("+ idling"); self.idle = tag; self.flush()
    def c_logout(self, tag, a):
        self.say("* BYE bye"); self.say("%s OK bye" % tag)
    def uids(self, s):
        b = self.b()
        return [u for u in seqset(s, max(b.msgs) if b.msgs else 0) if u in b.msgs]
    def c_store(self, tag, a):
        if self.ro: return self.no(tag, "read only")
        mask = fmask(a[2] if isinstance(a[2], list) else a[2:])
        op = a[1].upper(); sg = op[0] if op[0] in "+-" else "="
        b = self.b()
        for u in self.uids(a[0]):
            m = b.msgs[u]
            nf = m.flags | mask if sg == "+" else m.flags & ~mask if sg == "-" else mask
            self.w.srv_flags(b, m, nf)
            if u in self.known: self.fetchline(self.known.index(u) + 1, m)
        self.done(tag)
    def c_expunge(self, tag, a):
        if self.ro: return self.no(tag, "read only")
        b = self.b()
        for u in self.uids(a[0]):
            if b.msgs[u].flags & DEL and self.w.removable(b, u): self.w.srv_gone(b, u)
        self.done(tag, "[HIGHESTMODSEQ %d]" % b.himod if self.w.rng.random() < 0.5 else "")
    def c_fetch(self, tag, a):
        b = self.b()
        attrs = [str(x).upper() for x in (a[1] if isinstance(a[1], list) else [a[1]])]
        body = any(x.startswith("BODY") for x in attrs)
        mods = a[2] if len(a) > 2 else []
        us = self.uids(a[0])
        if mods:
            since = int(mods[mods.index("CHANGEDSINCE") + 1])
            lost = [u for u, m in b.gone if m > since]
            if lost: self.say("* VANISHED (EARLIER) " + compact(lost), self.w.gone_meta(self, b, lost))
            us = [u for u in us if b.msgs[u].modseq > since]
        for u in us:
            if u not in self.known: continue
            self.fetchline(self.known.index(u) + 1, b.msgs[u], body)
        self.done(tag)
    def c_copy(self, tag, a):
        name = a[1].decode("latin1") if isinstance(a[1], bytes) else a[1]
        b, d = self.b(), self.w.boxes.get("INBOX" if name.upper() == "INBOX" else name)
        if not d: return self.no(tag, "[TRYCREATE] no such mailbox")
        src = self.uids(a[0]); dst = []
        if any(b.msgs[u].cid in d.ever for u in src): return self.no(tag, "already there")
        for u in src:
            m = b.msgs[u]
            x = self.w.srv_new(d, m.cid, m.flags, m.date)
            x.limbo = self; dst.append(x.uid)
        if not src: return self.done(tag)
        self.done(tag, "[COPYUID %d %s %s]" % (d.uidvld, compact(src), compact(dst)),
                  info=dict(dst=d, pairs=[(b.msgs[u].cid, x) for u, x in zip(src, dst)], src=self.box))
    def c_append(self, tag, a):
        name = a[0].decode("latin1") if isinstance(a[0], bytes) else a[0]
        d = self.w.boxes.get("INBOX" if name.upper() == "INBOX" else name)
        if not d and self.w.append_cmd(self, tag): return
        if not d: return self.no(tag, "[TRYCREATE] no such mailbox")
        flags = fmask(a[1]) if isinstance(a[1], list) else 0
        date = [x for x in a[1:-1] if isinstance(x, bytes)]
        cid = self.w.appended(a[-1])
        if self.w.append_cmd(self, tag): return
        m = self.w.srv_new(d, cid, flags, date[0].decode() if date else "01-Jan-2020 00:00:00 +0000", raw=a[-1])
        m.limbo = self
        self.done(tag, "[APPENDUID %d %d]" % (d.uidvld, m.uid), info=dict(dst=d, append=(cid, m.uid)))
    def simple(self, tag, a, f): self.w.folder_cmd(self, tag, f, a)
    def c_list(self, tag, a): self.simple(tag, a, "LIST")
    def c_lsub(self, tag, a): self.simple(tag, a, "LSUB")
    def c_status(self, tag, a): self.simple(tag, a, "STATUS")
    def c_create(self, tag, a): self.simple(tag, a, "CREATE")
    def c_delete(self, tag, a): self.simple(tag, a, "DELETE")
    def c_rename(self, tag, a): self.simple(tag, a, "RENAME")
    def c_subscribe(self, tag, a): self.simple(tag, a, "SUBSCRIBE")
    def c_unsubscribe(self, tag, a): self.simple(tag, a, "UNSUBSCRIBE")

# ------------------------------------------------------------------ one mail client below
class Client:
    def __init__(self, w, j):
        self.w, self.j, self.sid = w, j, "d%d" % j
        self.lines = Lines(on_sync=self.plus)
        self.st = "greet"       # greet login auth sel closed
        self.box = None; self.ro = False
        self.n = 0; self.uids = []; self.fl = []
        self.ntag = 0; self.cmd = None; self.tag = None; self.u = None
        self.idling = False; self.idlectl = None; self.known_uid = {}
        self.seen_plus = False; self.caused = False; self.cmdev = {}
    def plus(self): pass
    def send(self, text):
        self.w.raw("d%d> %r" % (self.j, text[:300]))
        self.w.op("rx %s %s" % (self.sid, (text if isinstance(text, bytes) else text.encode("latin1")).hex()))
    def start(self, cmd, text, **ev):
        """one command; ev: the trace event, logged before the bytes are sent"""
        self.ntag += 1
        self.tag = "t%d" % self.ntag
        self.cmd = cmd
        self.cmdev = ev
        if self.box: self.w.ev(self.box, e="cmd", j=self.j, k=cmd, **ev)
        self.w.stats["cmds"] += 1
        self.send((self.tag + " ").encode() + (text if isinstance(text, bytes) else text.encode("latin1")) + b"\r\n")
    def recv(self, data):
        for l in self.lines.feed(data): self.on_line(l)
    def on_line(self, line):
        w = self.w
        w.raw("d%d< %r" % (self.j, line[:300]))
        if self.st == "closed": w.viol("output after the session was closed: %r" % line)
        if line.startswith(b"+"):
            self.seen_plus = True
            if self.cmd == "idle": self.idling = True
            return
        m = re.match(rb"\* (\d+) (EXISTS|EXPUNGE|RECENT)$", line)
        if m:
            n, what = int(m.group(1)), m.group(2).decode()
            if what == "EXISTS":
                self.evb(e="exi", n=n)
                self.uids += [None] * (n - self.n); self.n = n
            elif what == "EXPUNGE":
                self.evb(e="exp", k=n)
                if 1 <= n <= self.n: del self.uids[n - 1]; self.n -= 1
            return
        m = re.match(rb"\* (\d+) FETCH ", line)
        if m: return self.on_fetch(int(m.group(1)), tokens(line[m.end():])[0])
        if line.startswith(b"* SEARCH"):
            nums = [int(x) for x in line.split()[2:]]
            if self.cmdev.get("uid"):
                pos = {u: i + 1 for i, u in enumerate(self.uids) if u}
                nums = [pos.get(x, 1000 + x) for x in nums]
            return self.evb(e="sea", r=nums, m=self.cmdev.get("m", 0), v=self.cmdev.get("v", 0))
        m = re.match(rb"\* OK \[UIDNEXT (\d+)\]", line)
        if m: return self.evb(e="uidn", n=int(m.group(1)))
        m = re.match(rb"\* OK \[UIDVALIDITY (\d+)\]", line)
        if m: return self.evb(e="uidv", v=int(m.group(1)))
        if line.startswith(b"* BYE"): self.bye = True; return
        if line.startswith(b"* OK") and self.st == "greet": self.st = "login0"; return
        if line.startswith(b"* "):
            self.w.on_dn_untagged(self, line)
            return
        m = re.match(rb"(\S+) (OK|NO|BAD)", line)
        if not m: return w.viol("client got an unparsable line %r" % line)
        self.on_tagged(m.group(1).decode(), m.group(2).decode(), line)
    def evb(self, **k):
        if self.box: self.w.ev(self.box, j=self.j, **k)
    def on_fetch(self, k, items):
        d = {}
        i = 0
        while i < len(items):
            d[str(items[i]).upper()] = items[i + 1]; i += 2
        ev = dict(e="fet", k=k)
        if "UID" in d:
            ev["uid"] = int(d["UID"])
            if 1 <= k <= self.n: self.uids[k - 1] = ev["uid"]
        if "FLAGS" in d: ev["f"] = fmask(d["FLAGS"])
        body = d.get("BODY[]")
        if body is not None:
            if isinstance(body, str): body = body.encode("latin1")
            c = self.w.identify(body)
            ev["c"] = c
            if "INTERNALDATE" in d:
                want = self.w.dates.get((self.box, c))
                got = d["INTERNALDATE"].decode()
                if want and want.lstrip(" 0") != got.lstrip(" 0"): self.w.viol("INTERNALDATE of message c%d: %r, the server says %r" % (c, got, want))
            if "RFC822.SIZE" in d and int(d["RFC822.SIZE"]) != len(body):
                self.w.viol("RFC822.SIZE %s but the body has %d bytes" % (d["RFC822.SIZE"], len(body)))
        self.evb(**ev)
    def on_tagged(self, tag, st, line):
        w = self.w
        if tag != self.tag:
            return w.viol("tagged response %r, outstanding command %r" % (line[:100], self.tag))
        cmd, self.cmd, self.tag = self.cmd, None, None
        self.evb(e="tag", st=st)
        w.sc(self, "tag", cmd=cmd, st=st)
        if cmd == "login":
            self.st = "auth" if st == "OK" else "login0"
        elif cmd in ("sel", "exa"):
            if st == "OK":
                self.st = "sel"
            else:
                self.left()
        elif cmd == "close" and st == "OK": self.left()
        elif cmd == "logout": self.left()
        elif cmd == "idle": self.idling = False
        if cmd == "logout": self.caused = True
        w.on_cmd_done(self, cmd, st, line)
    def left(self):
        if self.box:
            b, self.box = self.box, None
            self.w.ev(b, e="left", j=self.j)
            self.w.box_left(b)
        if self.st == "sel": self.st = "auth"
        self.n, self.uids = 0, []

# ------------------------------------------------------------------ the world
class Stop(Exception): pass

class World:
    def __init__(self, exe, pool, seed, prof, scratch, verbose=False):
        self.exe, self.pool, self.rng, self.prof = exe, pool, random.Random(seed), prof
        self.verbose = verbose
        self.dir = tempfile.mkdtemp(dir=scratch)
        self.root = os.path.join(self.dir, "root")
        os.makedirs(os.path.join(self.root, "user", "keys"))
        shutil.copy(os.path.join(KEYS, "mykey.pem"), os.path.join(self.root, "user", "keys", "mykey.pem"))
        self.passwords = {"user": "pass"}
        mk = open(os.path.join(KEYS, "mykey.pub")).read()
        self.account_keys = {pool.fprs["mykey"]: mk, pool.fprs["other"]: open(os.path.join(KEYS, "other.pub")).read()}
        if prof.get("known_keys", True):
            # no "new device" alerts: their messages exist only locally (C04 is about them)
            for n in ("fingerprints",): os.makedirs(os.path.join(self.root, "user", n))
            with open(os.path.join(self.root, "user", "keys", "%s.pem" % pool.fprs["other"].upper()), "w") as f: f.write(self.account_keys[pool.fprs["other"]])
            with open(os.path.join(self.root, "user", "fingerprints", "fprs_seen"), "w") as f:
                f.write("".join("%s\n" % x for x in self.account_keys))
        self.boxes, self.tr, self.dates = {}, {}, {}
        self.nextcid = 1
        self.vld = 1000
        self.log, self.violations = [], []
        self.ops = []
        self.now = 1700000000
        self.clients, self.conns, self.connects = {}, {}, {}
        self.nj = 0
        self.stalled = set()
        self.tagbox = {}
        self.mir, self.vldseen, self.opfills = {}, {}, {}
        self.appending, self.append_plain, self.append_flags = {}, {}, {}
        self.depth = 0; self.after = []
        self.raws = {}
        self.pr = None
        self.nsess = {}
        self.fills = {}
        self.limbo = {}
        self.crashed_boxes = set()
        self.stats = dict(ops=0, cmds=0, crashes=0, quiets=0)
        self.scev = []
    # --- recording
    def raw(self, s):
        self.log.append(s)
        if self.verbose: print(s)
    def ev(self, box, **k):
        if box in self.tr:
            self.tr[box].append(k)
            self.raw("        [%s] %s" % (box, k))
    def sc(self, cl, what, **k): pass
    def viol(self, s):
        self.violations.append(s); self.raw("VIOL " + s)
        raise Stop()
    # --- server state
    def mkbox(self, name):
        self.vld += 1
        b = self.boxes[name] = Box(name, self.vld)
        self.tr.setdefault(name, [])
        return b
    def newcid(self):
        c = self.nextcid; self.nextcid += 1
        return c
    def srv_new(self, b, cid, flags, date=None, raw=None):
        uid = b.uidnext; b.uidnext += self.rng.choice([1, 1, 1, 2])
        date = date or "%02d-Feb-2021 10:%02d:00 +0000" % (self.rng.randint(1, 28), self.rng.randint(0, 59))
        m = b.msgs[uid] = Msg(uid, cid, flags, b.bump(), date)
        if raw is not None: self.raws[cid] = raw
        b.ever.add(cid)
        self.dates[(b.name, cid)] = date
        self.ev(b.name, e="new", c=cid, f=flags, n4m=int(self.n4m(m)))
        return m
    def srv_flags(self, b, m, nf):
        m.flags = nf; m.modseq = b.bump()
        self.ev(b.name, e="sfl", c=m.cid, f=nf)
    def srv_gone(self, b, u):
        m = b.msgs.pop(u)
        b.gone.append((u, b.bump()))
        b.cid_of = getattr(b, "cid_of", {}); b.cid_of[u] = m.cid
        self.ev(b.name, e="sgone", c=m.cid)
    def removable(self, b, u):
        """not while the citm has yet to learn of a message it copied or uploaded itself: see known_findings.txt (late-copyuid)"""
        if self.prof.get("late_copyuid"): return True
        m = b.msgs[u]
        if m.limbo and not m.limbo.dead: return False
        return all(u in c.known for c in self.conns.values() if not c.dead and c.box == b.name)
    def content(self, m): return self.raws[m.cid] if m.cid in self.raws else self.pool.srv[m.cid]
    def n4m(self, m): return m.cid not in self.raws and self.pool.exp[m.cid] is None
    def appended(self, data):
        """an APPEND arrived at the server: which message is it?  it must be encrypted"""
        text = data if isinstance(data, bytes) else data.encode("latin1")
        if not text.startswith(b"-----BEGIN SPLINTERMAIL MESSAGE-----"):
            self.viol("an APPEND reached the server unencrypted")
        out = self.op("dec %s %s" % (os.path.join(KEYS, "mykey.pem"), text.hex()))
        if not out or not out[0].startswith("w dec"): self.viol("an APPEND reached the server undecryptable for this device")
        plain = bytes.fromhex(out[0].split()[2])
        c = self.appending.get(plain)
        if not c: self.viol("an APPEND reached the server with altered contents")
        return c
    def identify(self, body):
        for c, p in self.append_plain.items():
            if p == body: return c
        return self.pool.by_exp.get(body, 0)
    def gone_meta(self, conn, b, uids):
        cids = [b.cid_of[u] for u in uids if u in getattr(b, "cid_of", {})]
        return [(b.name, dict(e="rxg", u=conn.k, cs=cids))]
    def verdict_meta(self, conn, tag, cmd, st, info):
        meta = []
        if (conn.k, tag) in self.tagbox:
            bx = self.tagbox[(conn.k, tag)]
            meta.append((bx, dict(e="ver", u=conn.k, t=self.tagno(tag), ok=int(st == "OK"))))
        if info and "pairs" in info:
            meta.insert(0, (info["dst"].name, dict(e="lfc", vld=info["dst"].uidvld, cs=[c for c, _ in info["pairs"]], src=info["src"])))
        if info and "append" in info:
            c = info["append"][0]
            meta.append((info["dst"].name, dict(e="lfa", vld=info["dst"].uidvld, cs=[c])))
        return meta
    def tagno(self, tag):
        m = re.search(r"imaildir(\d+)$", tag)
        return int(m.group(1)) if m else 0
    def server_fault(self, conn, tag, cmd, a):
        if (conn.k, tag) in self.tagbox and self.rng.random() < self.prof.get("relay_no", 0): return "NO [ALERT] refused"
        return None
    def append_cmd(self, conn, tag): return False
    def folder_cmd(self, conn, tag, f, a): conn.done(tag)
    # --- commands arriving from the citm
    def on_up_cmd(self, conn, t):
        if len(t) < 2: return
        tag, cmd = t[0], t[1].upper()
        a = t[2:]
        if cmd == "UID": cmd, a = t[2].upper(), t[3:]
        b = self.boxes.get(conn.selbox) if hasattr(conn, "selbox") else None
        if cmd in ("SELECT", "EXAMINE"):
            name = a[0].decode("latin1") if isinstance(a[0], bytes) else a[0]
            conn.selbox = "INBOX" if name.upper() == "INBOX" else name
            conn.selro = cmd == "EXAMINE"
            conn.att = conn.selbox
            return
        if cmd not in ("STORE", "EXPUNGE", "COPY") or not b: return
        own = not tag.startswith("imaildir")
        def cids(s):
            r = []
            for u in seqset(s, max(list(b.msgs) + [0])):
                if u in b.msgs: r.append(b.msgs[u].cid)
                elif u in getattr(b, "cid_of", {}): r.append(b.cid_of[u])
                else: self.viol("the citm sent %s for uid %d, which the server never used" % (cmd, u))
            return sorted(r)
        ev = dict(u=conn.k, t=0 if own else self.tagno(tag), cs=cids(a[0]))
        if not own: self.tagbox[(conn.k, tag)] = b.name
        if conn.selro and cmd != "COPY": self.viol("the citm sent %s on a mailbox it selected read-only" % cmd)
        if cmd == "STORE":
            op = a[1].upper()
            self.ev(b.name, e="txd" if own else "txs", sg=op[0] if op[0] in "+-" else "=",
                    f=fmask(a[2] if isinstance(a[2], list) else a[2:]), **ev)
        elif cmd == "EXPUNGE": self.ev(b.name, e="txy" if own else "txx", **ev)
        else:
            name = a[1].decode("latin1") if isinstance(a[1], bytes) else a[1]
            self.ev(b.name, e="txc", dst=name, **ev)
    # --- harness
    def boot(self):
        self.pr = Proc(self.exe, self.root, self.now)
    def op(self, line):
        self.depth += 1
        try: return self.op1(line)
        finally:
            self.depth -= 1
            if not self.crashed: self.opfills = {}
            if self.depth == 0:
                while self.after and not self.crashed: self.after.pop(0)()
    def op1(self, line):
        self.stats["ops"] += 1
        self.raw("# " + line[:160])
        if self.crashed: return []
        try: out = self.pr.op(line)
        except Died as d:
            self.raw("DIED")
            self.violations.append("the process died:\n" + str(d)); raise Stop()
        ret = []
        for l in self.order(out):
            p = l.split(" ")
            if p[0] == "w" and p[1] in self.conns: self.conns[p[1]].recv(bytes.fromhex(p[2]) if len(p) > 2 else b"")
            elif p[0] == "w" and p[1][0] == "d" and p[1][1:].isdigit() and int(p[1][1:]) in self.clients:
                self.clients[int(p[1][1:])].recv(bytes.fromhex(p[2]) if len(p) > 2 else b"")
            elif p[0] == "connect": self.connects[int(p[1])] = self.opening
            elif p[0] == "unconnect": self.connects.pop(int(p[1]), None)
            elif p[0] == "closed":
                if p[1] in self.conns: self.conn_closed(self.conns[p[1]])
                elif int(p[1][1:]) in self.clients: self.client_closed(self.clients[int(p[1][1:])])
            elif p[0] == "crashed": self.crashed = True
            elif p[0] in ("shut", "unread"): pass
            else: ret.append(l)
        return ret
    opening = None; crashed = False
    def order(self, out): return out
    def conn_closed(self, c):
        c.dead = True; c.out = []; c.cmds = []
        if c.att:
            b, c.att = c.att, None
            self.ev(b, e="udead", u=c.k)
            self.maybe_shut(b)
    def client_closed(self, cl):
        if cl.st == "closed": return
        if cl.box:
            if cl.caused == 1: self.ev(cl.box, e="cause", j=cl.j)
            self.ev(cl.box, e="bye", j=cl.j)
        b, cl.box = cl.box, None
        cl.st = "closed"; cl.cmd = None
        if not cl.caused: self.viol("session %s was closed although nothing happened to it" % cl.sid)
        if b: self.box_left(b)
    def cause(self, cl):
        if cl.st == "closed" or cl.caused == 1: return
        cl.caused = 1
        if cl.box: self.ev(cl.box, e="cause", j=cl.j)
    def box_left(self, b): self.maybe_shut(b)
    def maybe_shut(self, b, but=None):
        # a client which selects again first has its own upstream connection leave
        if any(c.box == b and not (c.cmd in ("sel", "exa") and (c.j == but or c.u and c.u.att)) for c in self.clients.values()) or any(c.att == b for c in self.conns.values()): return
        self.ev(b, e="shut")
    def on_cmd_done(self, cl, cmd, st, line): pass
    def on_dn_untagged(self, cl, line): pass
    # --- schedule pieces
    def new_client(self):
        self.nj += 1
        cl = self.clients[self.nj] = Client(self, self.nj)
        self.opening = self.nj
        self.op("dn d%d" % self.nj)
        self.opening = None
        return cl
    def do_connect(self, i, ok=True):
        j = self.connects.pop(i)
        k = len(self.conns)
        if ok:
            sid = "u%d" % k
            c = self.conns[sid] = SConn(self, sid, k)
            c.j = j
            if j: self.clients[j].u = c
            self.op("connect %d ok" % i)
        else: self.op("connect %d fail" % i)
    def live(self): return [c for c in self.conns.values() if not c.dead]
    def deliver(self, c, n=1):
        data = b""
        for _ in range(n):
            if not c.out: break
            d, meta = c.out.pop(0)
            for box, ev in meta: self.deliver_meta(c, box, ev)
            self.raw("C%d< %r" % (c.k, d[:200]))
            data += d
        if data: self.op("rx %s %s" % (c.sid, data.hex()))
    def deliver_meta(self, c, box, ev):
        e = ev["e"]
        mir = self.mir.setdefault(box, {})
        if e == "unsel":
            if c.att == box:
                c.att = None
                self.maybe_shut(box, c.j)
            return
        if e in ("lfc", "lfa"):
            for x in self.boxes[box].msgs.values():
                if x.cid in ev["cs"]: x.limbo = None
            if self.vldseen.get(box) != ev["vld"]: return
            for x in ev["cs"]:
                if e == "lfc":
                    st, f = self.mir.get(ev["src"], {}).get(x, ("unf", 0))
                    if st != "fill": continue
                else: f = self.append_flags[x]
                self.mirror(box, dict(e="lf", c=x, f=f))
                self.ev(box, e="lf", c=x, f=f)
            return
        if e == "ver" and not ev["ok"]:
            for cl in self.clients.values():
                if cl.box == box and cl.cmd == "close" and not cl.caused: cl.caused = 2    # the specification knows
        if e == "rxv": self.vldseen[box] = ev["v"]
        self.mirror(box, ev)
        self.ev(box, **ev)
    def mirror(self, box, ev):
        """what the citm has of this mailbox, by the same rules as Imaildir.tla"""
        m = self.mir.setdefault(box, {}); e = ev["e"]
        if e == "rxg":
            for x in ev["cs"]: m[x] = ("gone", m.get(x, ("unf", 0))[1])
        elif e in ("rxm", "rxb", "lf"):
            c = ev["c"]; st, f = m.get(c, ("unf", None))
            if st in ("gone", "n4m"): return
            if e == "rxm": m[c] = (st, ev["f"])
            else:
                if st != "fill": self.opfills.setdefault(box, []).append(c)
                m[c] = ("n4m" if ev.get("n4m") else "fill", ev["f"] if e == "rxb" or f is None else f)
    def idle_push(self):
        for c in self.live():
            if c.idle: c.flush()
    def settle(self, limit=4000):
        """let everything in flight finish"""
        for _ in range(limit):
            if self.crashed: return
            if self.connects: self.do_connect(min(self.connects)); continue
            c = next((c for c in self.live() if c.cmds and not (c.idle and c.cmds[0][0][0].upper() != "DONE")), None)
            if c: c.process(); continue
            c = next((c for c in self.live() if c.out), None)
            if c: self.deliver(c, 1); continue
            return
        raise vf.Infra("settle did not end")
    def login(self, cl, password="pass"):
        self.settle()
        if cl.st != "login0": raise vf.Infra("no greeting: " + cl.st)
        cl.start("login", "LOGIN user %s" % password)
        self.settle()
    def close(self):
        try:
            if self.pr: self.pr.close()
        finally: shutil.rmtree(self.dir, ignore_errors=True)
