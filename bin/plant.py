#!/usr/bin/env python3
"""plant.py WORKTREE ID PROPERTY NEEDS BREAKS: turn the uncommitted change in the scratch copy WORKTREE of /repo
into seeded/ID (demo.sh must be in seeded/ID already) after confirming it: builds, stable tests pass, demo 0/nonzero."""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common
V = common.VERIF
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=common.go_env(), capture_output=True, text=True, **k)
def main(wt, id_, prop, needs, breaks):
    d = os.path.join(V, "seeded", id_)
    patch = sh(["git", "diff"], wt).stdout
    assert patch, "no change"
    base = "eb13cf6"
    # changed lines belong to the original repository
    f = None; ours = []
    for l in patch.split("\n"):
        m = re.match(r"--- a/(.*)", l)
        if m: f = m.group(1)
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)) - 1; continue
        if f and l.startswith("-") and not l.startswith("---"):
            n += 1
            b = sh(["git", "blame", "-s", "-L", f"{n},{n}", f], wt).stdout if False else sh(["git", "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f], wt).stdout
            if base not in b: ours.append(b.strip())
        elif l.startswith(" "): n += 1
    if ours: print("WARNING lines not of the original repository:", *ours, sep="\n  ")
    r = sh(["go", "build", "./..."], wt); assert r.returncode == 0, r.stderr
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], wt, timeout=600)
    sh(["git", "clean", "-qfdx", "internal/vssgen"], wt)
    passed = set()
    for l in r.stdout.split("\n"):
        if '"pass"' in l:
            j = json.loads(l)
            if j.get("Test"): passed.add(j["Package"] + "/" + j["Test"])
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
    assert not miss, f"stable tests fail: {miss}"
    # the demo, from a copy elsewhere
    tmp = tempfile.mkdtemp(prefix="demo-")
    shutil.copytree(d, tmp + "/x", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = subprocess.run(["git", "apply", "--check", "-"], cwd="/repo", input=patch, text=True, capture_output=True)
        assert r.returncode == 0, r.stderr
        a = subprocess.run(["bash", tmp + "/x/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        print("clean:", a.returncode, (a.stdout + a.stderr)[-300:])
        subprocess.run(["git", "apply", "-"], cwd="/repo", input=patch, text=True, check=True)
        try:
            b = subprocess.run(["bash", tmp + "/x/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        finally:
            subprocess.run(["git", "checkout", "--", "."], cwd="/repo", check=True)
        print("patched:", b.returncode, (b.stdout + b.stderr)[-400:])
        st = subprocess.run(["git", "status", "--short"], cwd="/repo", capture_output=True, text=True).stdout
        assert not st, st
        assert a.returncode == 0 and b.returncode != 0
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("planted", id_)
main(*sys.argv[1:6])
