"""Common machinery of the checks: build /repo out of tree, compile and run harnesses,
run TLC over models and recorded traces, write evidence, report violations.

Only three endings: finish() -> exit 0, violation() -> exit 1 with a VIOLATION line,
anything else (Infra) -> exit 2 (an error of the machinery, never a verdict)."""
import concurrent.futures, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "_build", hashlib.sha1(REPO.encode()).hexdigest()[:8])
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "out")
REPOB = os.path.join(BUILD, "repo")
NCPU = min(8, os.cpu_count() or 4)
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:" + ":".join(
    j for j in glob.glob("/opt/veriftools/tla/*.jar") if not j.endswith("tla2tools.jar"))

class Infra(Exception):
    pass

def sh(cmd, timeout=900, cwd=None, env=None, input=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, input=input, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")

# ------------------------------------------------------------------ building
def build_repo(targets):
    """Configure (once) and build the given targets of REPO out of tree."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CC="gcc", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(REPOB, "build.ninja")):
            rc, out = sh(["cmake", "-S", REPO, "-B", REPOB, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=debug",
                          "-DBUILD_TESTS=yes", "-DBUILD_SERVER_CODE=yes",
                          "-DPYTHON_3_CMD=/usr/bin/python3"], env=env)
            if rc: raise Infra("cmake failed:\n" + out[-4000:])
        rc, out = sh(["ninja", "-C", REPOB] + list(targets), env=env)
        if rc: raise Infra("building /repo failed:\n" + out[-4000:])

LIBDIRS = ["server/libkvpsync", "server/kvpsend", "server/dns", "libcitm", "libimaildir", "libacme",
           "libhttp", "libweb", "libduvtls", "libduv", "libimap", "libcrypto", "libdstr", "libcli",
           "test", "server/mysql_util", "server/petname", "server", "."]

def compile_harness(name, srcs, archives, syslibs=(), flags=(), incs=()):
    """archives: names like libkvpsync.a; they are (re)built from REPO first."""
    build_repo(archives)
    found = []
    for a in archives:
        hits = glob.glob(os.path.join(REPOB, "**", a), recursive=True)
        if not hits: raise Infra("archive not built: " + a)
        found.append(hits[0])
    exe = os.path.join(BUILD, name)
    cmd = (["gcc", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DBUILD_DEBUG",
            "-Wall", "-Wno-unused-function", "-Wno-comment", "-I", REPO, "-I", REPOB, "-I", HARN] +
           ["-I" + i for i in incs] + list(flags) +
           [s if os.path.isabs(s) else os.path.join(HARN, s) for s in srcs] +
           ["-o", exe, "-Wl,--start-group"] + found + ["-Wl,--end-group"] +
           ["-l" + l for l in syslibs] + ["-luv", "-lssl", "-lcrypto", "-lpthread", "-lm"])
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(cmd)
    if rc: raise Infra("compiling harness %s failed:\n%s" % (name, out[-6000:]))
    return exe

ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1",
                UBSAN_OPTIONS="halt_on_error=1")

def run_harness(exe, script, timeout=60, args=(), cwd=None, env=None):
    """returns (rc, events, stderr); rc None on timeout."""
    e = dict(ASAN_ENV)
    if env: e.update(env)
    try:
        p = subprocess.run([exe] + list(args), input=script.encode("utf8"), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        rc, so, se = None, x.stdout or b"", x.stderr or b""
    evs = []
    for line in so.decode("utf8", "replace").split("\n"):
        if line.startswith("{"):
            try: evs.append(json.loads(line))
            except ValueError: pass
    return rc, evs, se.decode("utf8", "replace")

# ------------------------------------------------------------------ TLC
class TlcResult:
    pass

def run_tlc(module, cfg, workdir, files=(), workers=NCPU, timeout=800, extra=(), heap="6g", deadlock=True, props=()):
    """module: path to a .tla in specs/ (without extension); cfg: text."""
    os.makedirs(workdir, exist_ok=True)
    for f in glob.glob(os.path.join(SPECS, "*.tla")):
        shutil.copy(f, workdir)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f: f.write(cfg)
    cmd = (["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap] + list(props) + ["-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers),
            "-config", module + ".cfg", "-metadir", os.path.join(workdir, "states"), "-noGenerateSpecTE"] +
           ([] if deadlock else ["-deadlock"]) + list(extra) + [module + ".tla"])
    t0 = time.time()
    try:
        rc, out = sh(cmd, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        rc, out = None, "TIMEOUT"
    r = TlcResult()
    r.rc, r.out, r.wall = rc, out, time.time() - t0
    r.states = r.distinct = r.depth = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m: r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m: r.depth = int(m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m and not r.states: r.states = int(m[-1].replace(",", ""))
    shutil.rmtree(os.path.join(workdir, "states"), ignore_errors=True)
    return r

def last_state(out):
    """the text of the last state of an error trace, as {var: text}"""
    blocks = re.split(r"\nState \d+: ", out)
    if len(blocks) < 2: return {}
    b = blocks[-1].split("\n\n")[0]
    vals = {}
    for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ \w+ = |\Z)", b, re.S | re.M):
        vals[m.group(1)] = m.group(2).strip()
    return vals

class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.out = os.path.join(OUT, pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.model_runs = []
        self.viol = None

    @property
    def quick(self): return self.tier == "quick"
    def n(self, quick, thorough): return quick if self.tier == "quick" else thorough
    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    # --- exhaustive model checking
    def model(self, module, cfg, what, timeout=600, workers=NCPU, deadlock=False, extra=(), heap="8g"):
        wd = os.path.join(self.out, "mc_" + re.sub(r"\W+", "_", what)[:40])
        r = run_tlc(module, cfg, wd, workers=workers, timeout=timeout, deadlock=deadlock, extra=extra, heap=heap)
        if r.rc is None: raise Infra("TLC timed out on model " + what)
        if r.rc != 0: raise Infra("the model itself fails (%s), rc=%s:\n%s" % (what, r.rc, r.out[-5000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.model_runs.append(dict(model=what, distinct=r.distinct, generated=r.states, depth=r.depth, wall_s=round(r.wall, 1)))
        self.log("model %s: %d distinct, %d generated, depth %d, %.1fs" % (what, r.distinct, r.states, r.depth, r.wall))
        return r

    # --- trace judging.  traces: list of event lists.  returns None or (index, pos, kind, state)
    def judge(self, module, traces, consts="", invariants=(), timeout=600, tag="tv", heap="6g", workers=NCPU, count=True):
        if not traces: return None
        wd = os.path.join(self.out, tag)
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        with open(os.path.join(wd, "traces.ndjson"), "w") as f:
            for i, t in enumerate(traces): f.write(json.dumps(dict(id=i + 1, ev=t)) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK TRUE\n" + (("CONSTANTS\n" + consts + "\n") if consts else "")
        for inv in invariants: cfg += "INVARIANT %s\n" % inv
        r = run_tlc(module, cfg, wd, timeout=timeout, heap=heap, workers=workers)
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
        if r.rc == 0:
            if count: self.cov["traces_validated_against_impl"] += len(traces)
            want = sum(len(t) + 1 for t in traces)
            if r.distinct < want: raise Infra("trace validation visited %d states, expected at least %d" % (r.distinct, want))
            return None
        if r.rc in (11, 12):
            st = last_state(r.out)
            if "tr" not in st or "pos" not in st: raise Infra("cannot parse TLC error trace:\n" + r.out[-3000:])
            inv = re.findall(r"Invariant (\w+) is violated", r.out)
            return (int(st["tr"]) - 1, int(st["pos"]), ("invariant " + inv[0]) if inv else "event not allowed by the specification", st)
        raise Infra("TLC failed on traces (%s), rc=%s:\n%s" % (module, r.rc, r.out[-5000:]))

    # --- reporting
    def violation(self, what, detail, files=None):
        rp = os.path.join(self.out, "replay")
        os.makedirs(rp, exist_ok=True)
        with open(os.path.join(rp, "README.txt"), "w") as f: f.write(what + "\n\n" + detail + "\n")
        for n, txt in (files or {}).items():
            with open(os.path.join(rp, n), "w") as f: f.write(txt)
        print(what); print(detail[:6000])
        self.viol = what
        self.write_evidence(1)
        print("VIOLATION property=%s replay=%s" % (self.id, rp), flush=True)
        sys.exit(1)

    def write_evidence(self, violations):
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov["model_runs"] = self.model_runs
        if not cov["samples"]: cov["samples"] = ["(none recorded)"]
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(d, self.id + ".json"), "w") as f: json.dump(ev, f, indent=1)

    def finish(self):
        self.write_evidence(0)
        self.log("PASS", self.id, {k: v for k, v in self.cov.items() if k != "samples"})
        sys.exit(0)

    def known(self, key, text):
        print("KNOWN-FINDING: property=%s %s: %s" % (self.id, key, text), flush=True)

    # --- run a set of scripts through a harness and have TLC judge the traces
    def run_scripts(self, exe, scripts, timeout=60, par=NCPU, args=(), env=None, cwd_each=False, stop=None):
        """stop: give up (None for the scripts not run) once that many scripts hang or crash"""
        failed = []
        def one(s):
            if stop and len(failed) >= stop: return None
            r = one_(s)
            if r[0] != 0: failed.append(1)
            return r
        def one_(s):
            if cwd_each:
                d = tempfile.mkdtemp(prefix="vf.", dir=scratch_root())
                try: return run_harness(exe, s, timeout, args=list(args), cwd=d, env=env)
                finally: shutil.rmtree(d, ignore_errors=True)
            return run_harness(exe, s, timeout, args=args, env=env)
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            return list(ex.map(one, scripts))

    def conform(self, exe, scripts, module, consts="", invariants=(), timeout=60, batch=400, tag="tv", args=(), env=None,
                cwd_each=False, post=None, tlc_timeout=600, heap="6g", maxev=None, rc_ok=(0,)):
        """run every script, judge every trace; report a violation if a re-run repeats it."""
        self.log("running %d scripts" % len(scripts))
        res = self.run_scripts(exe, scripts, timeout, args=args, env=env, cwd_each=cwd_each, stop=None if rc_ok != (0,) else 3)
        traces, idx = [], []
        for i in sorted(range(len(res)), key=lambda i: res[i] is None):
            if res[i] is None: res[i] = self.run_scripts(exe, [scripts[i]], timeout, args=args, env=env, cwd_each=cwd_each)[0]
            rc, evs, err = res[i]
            if rc not in rc_ok:
                rc2, evs2, err2 = self.run_scripts(exe, [scripts[i]], timeout * 2, args=args, env=env, cwd_each=cwd_each)[0]
                if rc2 not in rc_ok:
                    kind = "hangs" if rc2 is None else ("crashes (rc=%d)" % rc2)
                    self.violation("the implementation %s on a script the specification allows" % kind,
                                   "last events:\n" + "\n".join(json.dumps(e) for e in evs2[-10:]) + "\n\nstderr:\n" + err2[-5000:],
                                   {"script.txt": scripts[i], "trace.ndjson": "\n".join(json.dumps(e) for e in evs2)})
                evs = evs2
            if post: evs = post(evs)
            traces.append(evs); idx.append(i)
        nev = sum(len(t) for t in traces)
        self.log("%d events recorded" % nev)
        self.cov["events"] = self.cov.get("events", 0) + nev
        if traces and len(self.cov["samples"]) < 3:
            self.cov["samples"].append(dict(script=scripts[idx[0]][:1500], trace_head=traces[0][:12]))
        for b in range(0, len(traces), batch):
            r = self.judge(module, traces[b:b + batch], consts, invariants, tag=tag, timeout=tlc_timeout, heap=heap)
            if r is None: continue
            k, pos, kind, st = r
            i = idx[b + k]
            # repeat: record again, judge again
            rc2, evs2, err2 = self.run_scripts(exe, [scripts[i]], timeout * 2, args=args, env=env, cwd_each=cwd_each)[0]
            if post: evs2 = post(evs2)
            if rc2 in rc_ok:
                r2 = self.judge(module, [evs2], consts, invariants, tag=tag + "_again", count=False, timeout=tlc_timeout, heap=heap)
                if r2 is None:
                    raise Infra("a rejection did not repeat (script %d, pos %d, %s)" % (i, pos, kind))
                k, pos, kind, st = r2
                ev = evs2
            else:
                ev = traces[b + k]
            ctx = "\n".join(("%s %4d %s" % (">>" if j + 1 == pos else "  ", j + 1, json.dumps(e))) for j, e in list(enumerate(ev))[max(0, pos - 25):pos + 3])
            self.violation("recorded behaviour of the code rejected by %s.tla: %s" % (module, kind),
                           "position %d of the trace (>>):\n%s\n\nspecification state before it:\n%s" %
                           (pos, ctx, "\n".join("%s = %s" % kv for kv in st.items())[:4000]),
                           {"script.txt": scripts[i], "trace.ndjson": "\n".join(json.dumps(e) for e in ev)})
        self.log("%d traces validated" % len(traces))
        return traces

def scratch_root():
    d = os.path.join(OUT, "scratch")
    os.makedirs(d, exist_ok=True)
    return d

def main(fn, pid):
    """run one check, mapping machinery failures to exit 2"""
    c = Check(pid)
    try:
        fn(c)
        c.finish()
    except Infra as e:
        print("ERROR (machinery): %s" % e, flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

# ------------------------------------------------------------------ TLC state graph -> tours
def dump_graph(c, module, cfg, what, timeout=300, workers=1):
    """exhaustive run with -dump; returns (nodes {id:label}, edges [(src,dst,action)], inits)"""
    wd = os.path.join(c.out, "graph_" + re.sub(r"\W+", "_", what)[:40])
    dot = os.path.join(wd, "g.dot")
    r = run_tlc(module, cfg, wd, workers=workers, timeout=timeout, deadlock=False,
                extra=["-dump", "dot,actionlabels", dot])
    if r.rc != 0: raise Infra("dumping %s failed rc=%s\n%s" % (what, r.rc, r.out[-3000:]))
    c.cov["states"] += r.distinct; c.cov["transitions"] += r.states
    c.model_runs.append(dict(model=what + " (dumped)", distinct=r.distinct, generated=r.states, depth=r.depth, wall_s=round(r.wall, 1)))
    nodes, edges, inits = {}, [], []
    for line in open(dot):
        m = re.match(r'(-?\d+) -> (-?\d+) \[label="([^"]*)"', line)
        if m: edges.append((m.group(1), m.group(2), m.group(3))); continue
        m = re.match(r'(-?\d+) \[label="((?:[^"\\]|\\.)*)"(,style = filled)?', line)
        if m:
            nodes[m.group(1)] = m.group(2)
            if m.group(3): inits.append(m.group(1))
    os.remove(dot)
    return nodes, edges, inits

def tours(edges, inits, rng, maxlen=60, limit=100000):
    """edge-covering walks from the initial states: list of [(src,dst,label)]"""
    from collections import deque, defaultdict
    out = defaultdict(list)
    for e in edges:
        out[e[0]].append(e)
    unc = set(e for e in edges if e[0] != e[1] or True)
    res = []
    # bfs tree paths
    par = {}
    dq = deque()
    for i in inits:
        par[i] = None; dq.append(i)
    while dq:
        u = dq.popleft()
        for e in out[u]:
            if e[1] not in par:
                par[e[1]] = e; dq.append(e[1])
    def path_to(u):
        p = []
        while par[u] is not None:
            p.append(par[u]); u = par[u][0]
        return p[::-1]
    order = [e for e in edges if e[0] in par]
    rng.shuffle(order)
    for e in order:
        if e not in unc: continue
        if len(res) >= limit: break
        w = path_to(e[0]) + [e]
        u = e[1]
        # greedily extend over uncovered edges
        while len(w) < maxlen:
            cand = [x for x in out[u] if x in unc and x not in w[-1:]]
            cand = [x for x in cand if x is not e]
            if not cand: break
            x = rng.choice(cand)
            w.append(x); unc.discard(x); u = x[1]
        for x in w: unc.discard(x)
        res.append(w)
    return res, len(unc)
