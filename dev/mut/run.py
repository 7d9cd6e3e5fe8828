#!/usr/bin/env python3
"""run.py WORKERS OUT FILE...: mutation testing of the checks: each small change of the files (paths in /repo) is
tried in a copy of the repository against one round of scripts of the families that should notice it."""
import concurrent.futures, hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "..", "bin"))

FAM = [("internal/logument/", "log"), ("internal/tsonpatch/", "patch"), ("internal/tson/", "text"), ("internal/vssgen/", "data"), ("web_demo", "web"),
       ("exp/tjson", "tjson"), ("exp/scenario", "exprun"), ("exp/utils_temporal", "tquery"), ("exp/exp_temporal", "exprun"), ("exp/", "exprun")]
EXTRA = {"exp/scenario": ["scenario", "vehicle"], "exp/vss_config": ["scenario"], "internal/tson/": ["patch"]}

def few(cases, n=3000): return random.Random(1).sample(cases, min(len(cases), n))

def rounds(fam, prop_n=1):
    """lists of scripts, small ones first"""
    from lib import gen_log, gen_patch, gen_text, gen_data, gen_exp, plan, families
    st = families.Stats()
    def number(l):
        for i, s in enumerate(l): s["sid"] = 1 + i
        return l
    if fam == "log":
        for k, n in ((0, 25), (1, 120), (2, 500)):
            yield number([s for p in plan.LOGP for s in gen_log.scripts(n, f"m{k}", p)])
    elif fam == "patch":
        for k, n in ((0, 150), (1, 1500)):
            yield number([s for p in ("C13", "C14", "C15", "C16") for s in gen_patch.scripts(n, f"m{k}", p)])
        yield number([s for p in ("C13", "C14", "C15", "C16") for s in few(plan.model_patch(p, st))])
    elif fam == "text":
        for k, n in ((0, 150), (1, 1500)):
            yield number([s for p in ("C17", "C18", "C19", "C20", "C21") for s in gen_text.scripts(n, f"m{k}", p)])
        yield number([s for p in ("C17", "C18", "C19", "C20", "C21") for out in plan.model_text(p, st) for s in few(out)])
    elif fam in ("data", "web"):
        props = ["C23"] if fam == "web" else ["C22", "C27"]
        for k, n in ((0, 60), (1, 400)):
            yield number(([gen_data.demo(1, f"{k}/demo")] if fam == "web" else []) + [s for p in props for s in gen_data.scripts(n, f"m{k}", p)])
        cases = plan.model_data(props[0], st)
        yield number(gen_data.from_model(few(cases, 1500), "m", fam == "web"))
    elif fam == "tjson":
        for k, n in ((0, 150), (1, 2000)): yield number(gen_exp.scripts(n, f"m{k}", "C25"))
    elif fam == "vehicle": yield number(gen_exp.scripts(60, "m", "C30"))
    elif fam == "scenario":
        yield number(gen_exp.scripts(700, "m", "C24"))
    elif fam == "tquery":
        for k, n in ((0, 60), (1, 1200)): yield number(gen_exp.tqueries(n, f"m{k}"))
        yield number(gen_exp.scripts(3, "m", "C26"))
    elif fam == "exprun":
        yield number(gen_exp.scripts(3, "m", "C26"))

def worker_main():
    """in a process of its own: VERIF_REPO is the changed copy; prints the verdict"""
    fams = sys.argv[2].split(",")
    cache = sys.argv[3]
    from lib import common, families
    common.CPUS = int(os.environ.get("MUT_CPUS", "2"))
    try:
        for fam in fams:
            for k, scripts in enumerate(json.load(open(os.path.join(cache, fam + ".json")))):
                f = fam
                if scripts and "run" in scripts[0]: f = "exprun"
                F = families.FAMILIES[f]
                lines = common.record(F.mode, scripts, F.kind)
                mm, _ = common.validate(F.module, lines, "")
                if mm:
                    tags = sorted({t for m in mm for t in m["tags"]})
                    print("KILLED", fam, k, len(mm), ",".join(tags)); return
        print("SURVIVED")
    except common.CheckError as e:
        print("BUILD" if "does not build" in str(e) else "CHECK-ERROR " + str(e)[:300].replace("\n", " "))
    except subprocess.TimeoutExpired: print("TIMEOUT")
    finally: common.cleanup()

def main():
    n, out, files = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    tmp = tempfile.mkdtemp(prefix="mut-")
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], MUT_CPUS=str(max(1, 8 // n)))
    subprocess.run(["go", "build", "-o", tmp + "/mutate", HERE + "/mutate.go"], check=True, env=env)
    muts = []
    for f in files:
        r = subprocess.run([tmp + "/mutate", "/repo/" + f], capture_output=True, text=True, check=True)
        muts += [json.loads(l) for l in r.stdout.splitlines()]
    r = random.Random(1)
    r.shuffle(muts)
    if os.environ.get("MUT_MAX"): muts = muts[:int(os.environ["MUT_MAX"])]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["from"], d["to"], d["text"]) for d in map(json.loads, open(out))}
    muts = [m for m in muts if (m["file"], m["from"], m["to"], m["text"]) not in done]
    fams = {}
    for m in muts:
        rel = m["file"][len("/repo/"):]
        l = [f for p, f in FAM if rel.startswith(p)][:1]
        for p, e in EXTRA.items():
            if rel.startswith(p): l = (l + e) if p != "exp/scenario" else (e + l)
        m["fams"] = l
        for f in l: fams[f] = 1
    for f in fams:
        json.dump(list(rounds(f)), open(f"{tmp}/{f}.json", "w"))
    from lib import common
    common.cleanup()
    print(len(muts), "changes", flush=True)
    lock = threading.Lock()
    trees = []
    shutil.copytree("/repo", tmp + "/base", symlinks=True, ignore=shutil.ignore_patterns(".git"))   # /repo may change meanwhile
    for i in range(n):
        t = f"{tmp}/repo{i}"
        shutil.copytree(tmp + "/base", t, symlinks=True)
        trees.append(t)
    def one(m):
        with lock: tree = trees.pop()
        rel = m["file"][len("/repo/"):]
        path = os.path.join(tree, rel)
        src = open(tmp + "/base/" + rel, "rb").read()
        try:
            with open(path, "wb") as f: f.write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])
            try:
                p = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker", ",".join(m["fams"]), tmp], env=dict(env, VERIF_REPO=tree), capture_output=True, text=True, timeout=600)
                verdict = [l for l in p.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED", "BUILD", "CHECK-ERROR", "TIMEOUT"))]
                verdict = verdict[0] if verdict else "CRASH " + p.stderr[-300:].replace("\n", " ")
            except subprocess.TimeoutExpired: verdict = "TIMEOUT"
            if verdict == "SURVIVED":
                t = subprocess.run(["bash", "-c", "go test ./... 2>&1 | grep -E '^(--- FAIL|FAIL.*build failed)' | grep -vE 'TestPrint|TestLeafNodes'"], cwd=tree, env=env, capture_output=True, text=True, timeout=300)
                if t.stdout.strip(): verdict = "SURVIVED-BUT-TESTS-FAIL"
        finally:
            with open(path, "wb") as f: f.write(src)
            with lock: trees.append(tree)
        m["verdict"] = verdict
        with lock:
            with open(out, "a") as f: f.write(json.dumps(m) + "\n")
    with concurrent.futures.ThreadPoolExecutor(n) as ex: list(ex.map(one, muts))
    shutil.rmtree(tmp)

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker": worker_main()
    else: main()
