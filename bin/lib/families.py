"""The families of checks, and how each property is decided."""
import collections, json, os, random, sys, time
from . import common, gen_log, gen_patch, gen_text, gen_data, gen_exp, gen_page, gen_rec

def around(trace, k):
    """the part of a trace worth keeping"""
    if len(trace["ev"]) <= 200: return trace
    return dict(trace, ev=trace["ev"][:2] + trace["ev"][max(2, k - 20):k], cut=True)

class Script:
    """scripts executed by the driver, traces judged by a TLA+ trace module"""
    def __init__(self, name, mode, module, gen, kind=None):
        self.name, self.mode, self.module, self.gen, self.kind = name, mode, module, gen, kind

    def run(self, prop, scripts, st):
        """-> list of (script, mismatch) for prop"""
        if not scripts: return []
        by = {s["sid"]: s for s in scripts}
        t = time.time()
        lines = common.record(self.mode, scripts, self.kind)
        st.drive += time.time() - t
        bad, seen = [], []
        for i in range(0, len(lines), 6000):
            part = lines[i:i + 6000]
            mm, r = common.validate(self.module, part, prop)
            st.tlc(self.module, r)
            for m in mm:
                if prop in m["tags"]:
                    bad.append((by[m["sid"]], m))
                    if self.kind is not None and len(seen) < 20:      # the code under test draws lots: keep what it did
                        seen.append(m)
                        m["trace"] = around(next(t for t in map(json.loads, part) if t["sid"] == m["sid"]), m["ev"])
        st.count(lines)
        return bad

    def confirm(self, prop, script):
        script = dict(script)
        script["repeat"] = max(12, script.get("repeat", 0))
        lines = common.record(self.mode, [script], self.kind)
        mm, _ = common.validate(self.module, lines, prop)
        mm = [m for m in mm if prop in m["tags"]]
        if not mm: return None
        m = mm[0]
        for l in lines:
            t = json.loads(l)
            if len(t["ev"]) >= m["ev"]:
                m["event"] = t["ev"][m["ev"] - 1]
        return m

class Together(Script):
    """scripts run at the same time, in one process: each has to give what it gives alone"""
    def __init__(self, base, at_once):
        super().__init__("together-" + base.name, base.mode, base.module, base.gen, "race")
        self.base, self.at_once = base, at_once

    def judge(self, scripts, prop, lines):
        out = []
        for i in range(0, len(lines), 6000):
            mm, r = common.validate(self.module, lines[i:i + 6000], prop)
            out += [(m, r) for m in mm] or [(None, r)]
        return out

    def run(self, prop, scripts, st):
        if not scripts: return []
        by = {s["sid"]: s for s in scripts}
        t = time.time()
        lines, dead = common.record_together(self.mode, scripts, self.at_once)
        st.drive += time.time() - t
        bad = []
        found = {}
        for m, r in self.judge(scripts, prop, lines):
            st.tlc(self.module, r)
            if m: found.setdefault(m["sid"], m)
        # not what is wrong in a script that runs alone
        sids = sorted(found)
        alone = [by[i] for i in sids] + [s for b, _, _ in dead for s in b]
        wrong = set()
        if alone:
            seq = common.record(self.mode, [{k: v for k, v in s.items() if k != "par"} for s in alone])
            wrong = {m["sid"] for m, r in self.judge(alone, prop, seq) if m}
        for i in sids:
            if i not in wrong: bad.append((dict(by[i], together=self.batch(scripts, i)), dict(found[i], tags=[prop])))
        for b, why, text in dead:
            if not wrong & {s["sid"] for s in b}:
                bad.append(({"sid": b[0]["sid"], "together": b}, {"sid": b[0]["sid"], "ev": 0, "tags": [prop], "event": {"c": "together", "out": "dead", "why": why}, "trace": {"stderr": text}}))
        st.count(lines)
        return bad

    def batch(self, scripts, sid):
        k = next(i for i, s in enumerate(scripts) if s["sid"] == sid)
        return scripts[max(0, k - self.at_once):k + self.at_once]

    def confirm(self, prop, script):
        batch = script["together"]
        for _ in range(5):
            st = Stats()
            bad = self.run(prop, batch, st)
            if bad: return {k: v for k, v in bad[0][1].items() if k != "trace"}
        return None

class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.calls = collections.Counter()
        self.modules = {}
        self.models = []
        self.samples = []
        self.drive = 0.0
        self.distinct = set()
    def tlc(self, module, r):
        self.states += r.states; self.transitions += r.generated
        self.modules[module] = self.modules.get(module, 0) + r.states
    def model(self, name, r, note=""):
        self.states += r.states; self.transitions += r.generated
        self.models.append({"model": name, "distinct_states": r.states, "states_generated": r.generated, "depth": r.depth, "note": note})
    def count(self, lines):
        for l in lines:
            t = json.loads(l)
            self.traces += 1
            self.distinct.add(hash(l))
            self.events += len(t["ev"])
            for e in t["ev"]: self.calls[f'{e["c"]}:{e.get("out","")}'] += 1
        if lines and len(self.samples) < 2:
            t = json.loads(lines[len(lines) // 2])
            self.samples.append({"sid": t["sid"], "calls": [{k: v for k, v in e.items() if k not in ("post", "new", "drift", "why", "res", "doc", "tson", "json", "rows", "ups", "o")} for e in t["ev"]][:8]})
    def coverage(self):
        return {"states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "distinct_traces": len(self.distinct),
                "events_validated": self.events, "events_by_call_and_outcome": dict(self.calls),
                "trace_states_by_module": self.modules, "models": self.models, "samples": self.samples}

LOG = Script("log", "log", "LogTrace", gen_log)
PATCH = Script("patch", "patch", "PatchTrace", gen_patch)
TEXT = Script("text", "text", "TextTrace", gen_text)
DATA = Script("data", "dataset", "DatasetTrace", gen_data, kind="plain")
WEB = Script("web", "dataset", "DatasetTrace", gen_data, kind="web")
SCENARIO = Script("scenario", "scenario", "ScenarioTrace", gen_exp, kind="exp")
VEHICLE = Script("vehicle", "vehicle", "VehicleTrace", gen_exp, kind="exp")
TJSON = Script("tjson", "tjson", "TJsonTrace", gen_exp, kind="exp")
EXPRUN = Script("exprun", "exprun", "ExperimentTrace", gen_exp, kind="exp")
TQUERY = Script("tquery", "tquery", "TJsonTrace", gen_exp, kind="exp")
RECORDER = Script("recorder", "recorder", "RecorderTrace", gen_rec, kind="exp")
PAGE = Script("page", "page", "PageTrace", gen_page)
TOGETHER = [Together(LOG, 4), Together(PATCH, 8), Together(TEXT, 8)]
FAMILIES = {**{f.name: f for f in TOGETHER}, "page": PAGE, "recorder": RECORDER, "vehicle": VEHICLE, "scenario": SCENARIO, "tjson": TJSON, "exprun": EXPRUN, "tquery": TQUERY, "log": LOG, "patch": PATCH, "text": TEXT, "data": DATA, "web": WEB}

from . import plan   # noqa: E402  (what each property runs)

def check(prop):
    t0 = time.time()
    st = Stats()
    bad = []
    try:
        for fam, scripts in plan.jobs(prop, st):
            for s, m in fam.run(prop, scripts, st): bad.append((fam, s, m))
    finally:
        pass
    known = [k for k in common.known_findings() if k[0] == prop]
    violation, shown, keys = None, set(), set()
    tried = 0
    # one failing script per call kind first
    bad.sort(key=lambda b: len(json.dumps(b[1])))
    for fam, s, m in bad:
        if violation or tried >= 6: break
        tried += 1
        c = fam.confirm(prop, s)
        if not c and "trace" in m: c = m
        if c: violation = (fam, s, c)
    if bad and not violation:
        raise common.CheckError(f"{len(bad)} mismatches for {prop}, none of them reproduced: {json.dumps(bad[0][2])}")
    common.evidence(prop, plan.LEVEL.get(prop, "model_checking"), st.coverage(), t0, len(bad), plan.ASSUME.get(prop, []))
    for k in known: print(f"KNOWN-FINDING: property={prop} {k[2]}")
    print(f"{prop}: {st.traces} traces, {st.events} events, {st.states} states, {len(bad)} mismatches, {time.time()-t0:.1f} s")
    if violation:
        fam, s, c = violation
        path = common.save_replay(prop, {"property": prop, "family": fam.name, "script": s, "mismatch": c})
        print("mismatch:", json.dumps(c)[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
