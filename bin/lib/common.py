"""Shared machinery: build the driver from /repo, run scripts, run TLC, judge."""
import collections, concurrent.futures, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
REPLAYS = os.path.join(VERIF, "replays")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4

class CheckError(Exception):
    """the check itself failed: no verdict"""

def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOMODCACHE="/root/go/pkg/mod")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

_work = None
def work():
    global _work
    if _work is None:
        os.makedirs(BUILD, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    return _work

def cleanup():
    global _work
    if _work: shutil.rmtree(_work, ignore_errors=True)
    _work = None

def overlay(files):
    p = os.path.join(work(), "overlay.json")
    with open(p, "w") as f: json.dump({"Replace": files}, f)
    return p

def go_build(out, pkg, files, args=()):
    r = subprocess.run(["go", "build", *args, "-overlay", overlay(files), "-o", out, pkg], cwd=REPO, env=go_env(),
                       capture_output=True, text=True, timeout=600)
    if r.returncode != 0: raise CheckError("driver does not build:\n" + r.stderr[-3000:])
    return out

def racing(out, pkg, files):
    """built with the race detector, where that runs at all"""
    try:
        go_build(out, pkg, files, ["-race"])
        p = subprocess.run([out, "log"], input="", capture_output=True, env=dict(os.environ, VERIF_MODE="dataset"), timeout=60)
        if p.returncode == 0: return out
    except CheckError: pass
    return go_build(out, pkg, files)

_driver = {}
def driver(race=False):
    if race not in _driver:
        files = {f"{REPO}/internal/zzverif/{os.path.basename(f)}": f for f in glob.glob(f"{VERIF}/go/*.go")}
        build = racing if race else go_build
        _driver[race] = build(os.path.join(work(), "drvrace" if race else "drv"), "./internal/zzverif", files)
    return _driver[race]

_exp = None
def exp_driver():
    """the driver of the experiments"""
    global _exp
    if _exp is None:
        files = {f"{REPO}/internal/zzverif/{os.path.basename(f)}": f for f in [f"{VERIF}/go/main.go", f"{VERIF}/go/proj.go", *glob.glob(f"{VERIF}/go/exp/*.go")]}
        _exp = go_build(os.path.join(work(), "expdrv"), "./internal/zzverif", files)
    return _exp

_web = None
def web_driver():
    """the driver compiled into the repository's own main package"""
    global _web
    if _web is None:
        files = {}
        for f in ("main.go", "proj.go", "dataset.go", "web/web.go"):
            src = open(os.path.join(VERIF, "go", f)).read()
            if f == "main.go": src = src.replace("func main() {", "func verifMain() {").replace("os.Args[1]", 'os.Getenv("VERIF_MODE")')
            out = os.path.join(work(), "web_" + os.path.basename(f))
            with open(out, "w") as g: g.write(src)
            files[f"{REPO}/zz_verif_{'zz' if f == 'web/web.go' else 'a'}_{os.path.basename(f)}"] = out
        _web = racing(os.path.join(work(), "webdrv"), ".", files)
    return _web

# ------------------------------------------------------------------ driver

def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

NOBODY = 65534
FAULT = r"^(?:WARNING: DATA RACE|fatal error: concurrent map|panic: |unexpected fault|fatal error: all goroutines|fatal error: sync:).*"      # what only faulty code gives

GORACE = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"      # only read by what is built with -race

class Sandbox:
    """A scratch directory for drivers which write or delete files: they run there, as an unprivileged user."""
    def __init__(self, binary, files=()):
        self.dir = tempfile.mkdtemp(prefix="verif-scratch-")
        os.chmod(self.dir, 0o755)
        self.binary = shutil.copy(binary, os.path.join(self.dir, "drv"))
        os.chmod(self.binary, 0o755)
        self.files = files
    def place(self):
        d = tempfile.mkdtemp(dir=self.dir)
        for src, rel in self.files:
            os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
            if os.path.exists(src): shutil.copy(src, os.path.join(d, rel))
        if os.geteuid() == 0:
            for base, ds, fs in os.walk(d):
                os.chown(base, NOBODY, NOBODY)
                for f in fs: os.chown(os.path.join(base, f), NOBODY, NOBODY)
        return d
    def drop(self):
        _limits()
        if os.geteuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def _run_shard(mode, scripts, sandbox=None):
    """trace lines of the scripts; scripts which kill the driver become 'dead' events"""
    if mode == "page":
        limits, cwd, cmd = _limits, None, ["node", "--stack-size=4000", f"{VERIF}/js/page.js"]
        env = dict(os.environ, VERIF_PAGE=f"{REPO}/index.html")
    elif sandbox:
        binary, limits, cwd = sandbox.binary, sandbox.drop, sandbox.place()
        env = dict(PATH="/usr/bin:/bin", HOME=cwd, TMPDIR=cwd, GOMEMLIMIT="3GiB", GORACE=GORACE, VERIF_MODE=mode, VERIF_VSS=os.path.join(cwd, "internal/vssgen/vss.json"))
        cmd = [binary] if sandbox.by_env else [binary, mode]
    else:
        binary, limits, cwd, env = driver(), _limits, None, dict(os.environ, GOMEMLIMIT="3GiB")
        cmd = [binary, mode]
    out, todo, deaths = [], list(scripts), 0
    while todo:
        p = subprocess.run(cmd, input="".join(json.dumps(s) + "\n" for s in todo), cwd=cwd,
                           capture_output=True, text=True, timeout=840, preexec_fn=limits, env=env)
        lines = [l for l in p.stdout.split("\n") if l]
        if p.returncode == 0:
            out += lines
            return out
        good = []
        for l in lines:
            try: json.loads(l); good.append(l)
            except ValueError: break
        done = {json.loads(l)["sid"] for l in good}
        k = max([i + 1 for i, s in enumerate(todo) if s["sid"] in done], default=0)
        out += good
        if k >= len(todo): raise CheckError("driver failed after its last script: " + p.stderr[-800:])
        bad = todo[k]
        if os.environ.get("VERIF_DEBUG"): print("driver death:", p.returncode, p.stderr[-500:], file=sys.stderr)
        for _ in range(5):      # what depends on the interleaving may need several runs
            q = subprocess.run(cmd, input=json.dumps(bad) + "\n", capture_output=True, text=True, cwd=cwd,
                               timeout=300, env=dict(env, VERIF_STEP="1"), preexec_fn=limits)
            if q.returncode != 0: break
        err = q.stderr
        if q.returncode == 0:
            if not re.search(FAULT, p.stderr, re.M): raise CheckError("driver died but the script runs alone: " + p.stderr[:800] + " ... " + p.stderr[-400:])
            err = p.stderr
        steps = [l.split()[1] for l in q.stderr.split("\n") if l.startswith("STEP ") and "start" not in l]
        call = steps[-1] if steps else "start"
        if call == "start": raise CheckError("driver died outside a call: " + q.stderr[-800:])
        why = (re.findall(FAULT, err, re.M) or re.findall(r"^(?:HANG|fatal error|panic|runtime).*", err, re.M) or ["died"])[0]
        out.append(json.dumps({"sid": bad["sid"], "paths": {}, "dead": 1,
                               "ev": [{"c": call, "l": 1, "out": "dead", "why": why[:200], "post": [], "drift": []}]}))
        deaths += 1
        todo = todo[k + 1:]
        if deaths >= 3: break        # enough to report
    return out

def record_together(mode, scripts, at_once):
    """trace lines of the scripts, so many of them run at the same time; and the batches in which the driver died, with what it said"""
    drv = driver(race=True)
    env = dict(os.environ, GOMEMLIMIT="3GiB", GORACE=GORACE, VERIF_PAR=str(at_once))
    def run(part):
        try: return subprocess.run([drv, mode], input="".join(json.dumps(s) + "\n" for s in part), capture_output=True, text=True, timeout=600, preexec_fn=_limits, env=env)
        except subprocess.TimeoutExpired: raise CheckError("the driver did not finish")
    def shard(todo):
        out, dead = [], []
        while todo and len(dead) < 2:
            p = run(todo)
            out += [l for l in p.stdout.split("\n") if l.endswith("}")]
            if p.returncode == 0: break
            done = {json.loads(l)["sid"] for l in out}
            k = max([i + 1 for i, s in enumerate(todo) if s["sid"] in done], default=0)
            batch = todo[k:k + at_once]
            why = re.findall(FAULT, p.stderr, re.M) or re.findall(r"^(?:HANG|fatal error|runtime).*", p.stderr, re.M) or [f"exit {p.returncode}"]
            if os.environ.get("VERIF_DEBUG"): print(p.stderr[-3000:], file=sys.stderr)
            dead.append((batch, why[0][:200], p.stderr[:6000]))
            todo = todo[k + at_once:]
        return out, dead
    n = max(1, CPUS // 2)
    size = -(-len(scripts) // n // at_once) * at_once
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(shard, [scripts[i:i + size] for i in range(0, len(scripts), size)]))
    return [l for r in res for l in r[0]], [d for r in res for d in r[1]]

def record(mode, scripts, kind=None):
    """kind: None, or which driver (plain, web, exp) runs in a scratch directory"""
    box = None
    if kind is None:
        if mode != "page": driver()
    else:
        box = Sandbox({"plain": driver, "web": web_driver, "exp": exp_driver}[kind](), [(f"{REPO}/internal/vssgen/vss.json", "internal/vssgen/vss.json"), (f"{REPO}/index.html", "index.html")])
        box.by_env = kind == "web"
    n = max(1, min(CPUS, len(scripts) // 20 or 1))
    shards = [scripts[i::n] for i in range(n)]
    try:
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda s: _run_shard(mode, s, box), shards))
    finally:
        if box: box.remove()
    return [l for r in res for l in r]

# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self): self.states = self.generated = 0; self.depth = 0; self.out = ""; self.printed = []

def tlc(module, cfg, env=None, args=(), timeout=800, workers=CPUS, heap="8g"):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work())
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC did not finish in {timeout} s on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.out = p.stdout
    r.code = p.returncode
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", p.stdout)
    if m:
        r.generated, r.states = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
    r.depth = int(m.group(1)) if m else 0
    for line in p.stdout.split("\n"):
        if line.startswith('"') and line.endswith('"'):
            try: r.printed.append(json.loads(line))
            except ValueError: pass
    return r

def outside(out):
    """where TLC met a value that the specification has no meaning for: (number of the trace, number of the event)"""
    if not re.search(r"Attempted to |cannot be compared|not in the domain|RuntimeException", out): return None
    if "StackOverflow" in out or "OutOfMemory" in out: return None
    sid, ev = re.findall(r"^/\\ sid = (\d+)", out, re.M), re.findall(r"^/\\ l = (\d+)", out, re.M)
    return (int(sid[-1]), int(ev[-1])) if sid and ev else None

def validate(module, lines, prop, timeout=800):
    """check trace lines against module; -> (mismatches, Tlc)"""
    path = os.path.join(work(), f"trace-{module}.ndjson")
    mm, lines = [], list(lines)
    while True:
        with open(path, "w") as f: f.write("\n".join(lines) + "\n")
        r = tlc(module, module + ".cfg", env={"TRACE": path}, timeout=timeout)
        os.unlink(path)
        if r.code == 0 and "No error has been found" in r.out: break
        at = outside(r.out)
        if not at or len(mm) >= 3:
            if mm: return mm, r
            err = r.out[r.out.find("Error:"):][:2500] if "Error:" in r.out else r.out[-1500:]
            raise CheckError(f"TLC failed on {module}: {err}")
        # the implementation went where the specification has no states at all
        t = json.loads(lines.pop(at[0] - 1))
        mm.append({"sid": t["sid"], "ev": at[1], "tags": [prop or "OUTSIDE"]})
        if not lines: return mm, r
    want = sum(len(json.loads(l)["ev"]) + 1 for l in lines)
    if r.states != want:
        raise CheckError(f"TLC consumed {r.states} of {want} trace states")
    for s in r.printed:
        if s.startswith("MISMATCH "): mm.append(json.loads(s[9:]))
    for m in mm:
        if any(t.startswith("BAD-") for t in m["tags"]): raise CheckError("bad event in trace: " + json.dumps(m))
    return mm, r

# ------------------------------------------------------------------ evidence

def evidence(prop, level, coverage, t0, violations, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage,
         "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)

def tier(): return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

def save_replay(prop, data):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{prop}-{tier()}-{seed()}.json")
    with open(p, "w") as f: json.dump(data, f, indent=1)
    return p

def known_findings():
    """lines 'known: property=<id> key=<what identifies it> -- description' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) -- (.*)", l)
            if m: out.append(m.groups())
    return out
