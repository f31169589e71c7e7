"""Shared by the checks which drive the whole citm and have TLC judge every mailbox history against Imaildir.tla."""
import collections, json
from citm_run import *

ASSUME = ["the mail server is a QRESYNC/UIDPLUS server without defects (checks/citm_drv.py); it never expunges a message while the citm still waits for the COPYUID/APPENDUID which names it (finding late-copyuid)",
          "a crash loses no completed system call (fsync is honoured); time does not run backwards"]

def setup(c):
    c.assumptions += ASSUME
    exe = compile_citm()
    scratch = vf.scratch_root()
    t = __import__("time").time()
    pool = Pool(exe, 120, scratch)
    return exe, pool, scratch

def context(r, box, pos, n=40):
    t = r["tr"][box]
    return "\n".join("%s %4d %s" % (">>" if j + 1 == pos else "  ", j + 1, json.dumps(t[j])) for j in range(max(0, pos - n), min(len(t), pos + 2)))

def report(c, prof, r, what, detail):
    files = {"schedule.json": json.dumps(dict(seed=r["seed"], profile=prof)), "log.txt": "\n".join(r["log"] or [])}
    for b, t in r["tr"].items(): files["trace_%s.ndjson" % b] = "\n".join(json.dumps(e) for e in t)
    c.violation(what, detail, files)

def campaign(c, exe, pool, scratch, prof, n, what, need=(), base=0, batch=1600, cls="Sched", module="ImaildirTrace"):
    """n schedules with one profile; need: kinds of events which must have occurred"""
    s0 = c.seed * 1000003 + base
    res = many(exe, pool, range(s0, s0 + n), prof, scratch, cls=cls)
    kinds = collections.Counter(e["e"] for r in res for t in r["tr"].values() for e in t)
    tot = collections.Counter()
    for r in res: tot.update(r["stats"])
    c.log("%s: %d schedules, %d events, %s" % (what, n, sum(kinds.values()), dict(tot)))
    c.cov["events"] = c.cov.get("events", 0) + sum(kinds.values())
    c.cov.setdefault("campaigns", []).append(dict(what=what, schedules=n, profile=prof, stats=dict(tot), events=dict(kinds)))
    for r in res:
        if not (r["viol"] or r["err"]): continue
        again = one((exe, pool, r["seed"], prof, scratch, cls))
        for x in range(2):
            if again["viol"] or again["err"]: break
            again = one((exe, pool, r["seed"], prof, scratch, cls))
        if not (again["viol"] or again["err"]):
            c.cov["unrepeatable"] = c.cov.get("unrepeatable", 0) + 1
            continue
        report(c, prof, again, "the citm misbehaves (seed %d): %s" % (r["seed"], (again["viol"] or [again["err"]])[0][:300]),
               "%s\n%s\nlast steps:\n%s" % ("\n".join(again["viol"]), again["err"] or "", "\n".join(x[:300] for x in (again["log"] or [])[-40:])))
    if c.cov.get("unrepeatable", 0) > n // 50: raise vf.Infra("too many schedules end differently when repeated: " + str([(r["seed"], r["viol"][:1], (r["err"] or "")[-200:]) for r in res if r["viol"] or r["err"]][:3]))
    for k in need:
        if kinds[k] < 5: raise vf.Infra("the campaign '%s' is vacuous: %d events '%s'" % (what, kinds[k], k))
    tr = [(r, b, t) for r in res for b, t in r["tr"].items() if t]
    if len(c.cov["samples"]) < 2 and tr: c.cov["samples"].append(dict(seed=tr[0][0]["seed"], box=tr[0][1], trace_head=tr[0][2][:15]))
    for k in range(0, len(tr), batch):
        part = tr[k:k + batch]
        v = c.judge(module, [t for _, _, t in part], tag="tv", heap="10g")
        if v is None: continue
        i, pos, kind, st = v
        r, box, _ = part[i]
        again = one((exe, pool, r["seed"], prof, scratch, cls))
        v2 = c.judge(module, [again["tr"][box]], tag="again", count=False) if again["tr"].get(box) else None
        if v2 is None:
            raise vf.Infra("a rejection did not repeat (seed %d, %s, pos %d, %s)" % (r["seed"], box, pos, r["tr"][box][pos - 1]))
        _, pos, kind, st = v2
        report(c, prof, again, "recorded behaviour of the citm rejected by %s (seed %d, %s): %s: %s" %
               (module, r["seed"], box, kind, json.dumps(again["tr"][box][pos - 1])),
               "the event marked >> is not a step of the specification:\n%s\n\nspecification state before it:\n%s" %
               (context(again, box, pos), "\n".join("%s = %s" % kv for kv in st.items())[:5000]))

INV = ["Fair", "UidsDistinct", "UidsOrdered", "ViewsSound", "OnceEach", "NobodyWaits", "Converged", "Agree"]
def mccfg(sessions, nmsg, nsrv, ncmd, ndrop, kinds, bug="none"):
    return ("SPECIFICATION MCSpec\nCONSTANTS\nSESSIONS = {%s}\nNMSG = %d\nNSRV = %d\nNCMD = %d\nNDROP = %d\nKINDS = {%s}\nBUG = \"%s\"\n" %
            (",".join(str(i + 1) for i in range(sessions)), nmsg, nsrv, ncmd, ndrop, ",".join('"%s"' % k for k in kinds.split()), bug) +
            "".join("INVARIANT %s\n" % i for i in INV))
def mechanism(c, *a):
    """every behaviour of the modelled mechanism (ImaildirMC) is allowed by Imaildir.tla"""
    c.model("ImaildirMC", mccfg(*a), "ImaildirMC sessions=%d messages<=%d server changes<=%d commands<=%d drops<=%d %s" % a)
def notices(c, bug, *a):
    """the specification is not too weak: it forbids what a mechanism broken this way does"""
    import os
    r = vf.run_tlc("ImaildirMC", mccfg(*a, bug=bug), os.path.join(c.out, "mc_bug_" + bug), deadlock=False, timeout=300)
    if r.rc != 12: raise vf.Infra("the specification does not notice the mechanism broken by '%s' (rc %s)\n%s" % (bug, r.rc, r.out[-2000:]))
    c.cov.setdefault("broken_mechanisms_noticed", []).append(bug)
