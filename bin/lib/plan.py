"""Which models, scripts and bounds decide which property."""
import json, random
from . import common, families, gen_log, gen_patch, gen_text, gen_data, gen_exp, gen_page, gen_rec

LEVEL, ASSUME = {}, {}
LOGP = [f"C{i:02d}" for i in range(1, 13)]

INV = {"C01": "TypeOK", "C02": "CacheIndependent OneByOne", "C03": "TypeOK CacheIndependent", "C04": "TrackOK",
       "C05": "TTrackOK", "C06": "LatestIsNow", "C07": "SliceOK", "C08": "TSliceOK", "C09": "TypeOK LatestIsNow",
       "C10": "CacheIndependent", "C11": "HistoryOK", "C12": "TypeOK"}

def write_cfg(name, lines):
    import os
    p = os.path.join(common.work(), name)
    with open(p, "w") as f: f.write("\n".join(lines) + "\n")
    return p

def mclog_cfg(vocab, ops, ver, calls, gen, inv):
    c = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE", "CONSTANTS", f'  Vocab = "{vocab}"', f"  MaxOps = {ops}",
         f"  MaxVer = {ver}", f"  MaxCalls = {calls}", f"  Gen = {'TRUE' if gen else 'FALSE'}"]
    if gen: c += ["ACTION_CONSTRAINT Script", "CONSTRAINT Bounded"]
    else: c += ["VIEW View"]
    if inv: c += ["INVARIANTS " + inv]
    return c

def model_log(prop, st):
    """exhaustive check of the design: invariants of the property over every small history"""
    r = random.Random(f"{common.seed()}/{prop}/mc")
    todo = [(v, 2, 2) for v in ("flat", "tree", "array")]
    if common.tier() == "quick": todo = [todo[(common.seed() + LOGP.index(prop)) % 3]]
    for vocab, ops, ver in todo:
        cfg = write_cfg("MCLog.cfg", mclog_cfg(vocab, ops, ver, 99, False, INV[prop]))
        t = common.tlc("MCLog", cfg, timeout=600)
        if "No error has been found" not in t.out:
            raise common.CheckError("the model violates its own properties: " + t.out[t.out.find("Error:"):][:1500])
        st.model(f"MCLog vocab={vocab} MaxOps={ops} MaxVer={ver}", t, "exhaustive; invariants " + INV[prop])

def generated(prop, st, num, depth):
    """scripts that are behaviours of the model MCLog, each followed by queries"""
    out = []
    for vocab in ("flat", "tree", "array"):
        cfg = write_cfg("MCLogGen.cfg", mclog_cfg(vocab, depth, depth, depth + 1, True, ""))
        t = common.tlc("MCLog", cfg, args=["-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(common.seed() * 1000 + LOGP.index(prop))],
                       timeout=300, workers=1)
        for s in t.printed:
            if s.startswith("SCRIPT "):
                j = json.loads(s[7:])
                if len(j["calls"]) == depth: out.append(j)
        st.models.append({"model": f"MCLog vocab={vocab} -simulate", "behaviours": num, "note": "script generation"})
    if not out: raise common.CheckError("the model generated no scripts: " + t.out[-800:])
    r = random.Random(f"{common.seed()}/{prop}/probe")
    return [gen_log.from_model(100000 + i, j, r, prop) for i, j in enumerate(out)]

def model_patch(prop, st):
    """every case of the exhaustive model MCPatch, as scripts; the model's theorems are checked on the way"""
    what = "apply" if prop in ("C13", "C14") else "diff"
    kinds = {"C13": ("apply1",), "C14": ("apply1", "apply"), "C15": ("diff",), "C16": ("difft",)}[prop]
    out = []
    for size in ("flat", "deep") if common.tier() == "quick" else ("flat", "deep", "wide"):
        cfg = write_cfg("MCPatch.cfg", ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE", "CONSTANTS", f'  Size = "{size}"', f'  What = "{what}"',
                                        "  Gen = TRUE", "INVARIANTS ApplyTheorem RefusalTheorem DiffTheorem"])
        t = common.tlc("MCPatch", cfg, timeout=600)
        if "No error has been found" not in t.out: raise common.CheckError("the model violates its own properties: " + t.out[t.out.find("Error:"):][:1500])
        st.model(f"MCPatch {size} {what}", t, "exhaustive; every case replayed on the implementation")
        cases = [json.loads(s[5:]) for s in t.printed if s.startswith("CASE ")]
        if not cases: raise common.CheckError("the model generated no cases")
        cases.sort(key=json.dumps)
        out += gen_patch.from_model(cases, what, kinds, f"{common.seed()}/{prop}/{size}")
    for i, s in enumerate(out): s["sid"] = 200000 + i
    return out

TEXT = {"C17": [("patch", 2, "ReadOnce")], "C18": [("docs", 2, "RoundTrip Complete Conversions")],
        "C19": [("docs", 2, "RoundTrip Complete"), ("texts", 4, "Hopeless")], "C20": [("docs", 2, "Conversions")],
        "C21": [("docs", 2, "Conversions"), ("pairs", 2, "Equalities")]}

def model_text(prop, st):
    """every case of the exhaustive models MCText, as scripts; the models' theorems are checked on the way"""
    first = 300000
    todo = list(TEXT[prop])
    if prop == "C19" and common.tier() == "thorough": todo += [("texts", 5, "Hopeless"), ("texts", 6, "Hopeless")]
    for what, size, inv in todo:
        cfg = write_cfg("MCText.cfg", ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE", "CONSTANTS", f'  What = "{what}"', f"  MaxLex = {size}",
                                       "  Gen = TRUE", "INVARIANTS " + inv])
        t = common.tlc("MCText", cfg, timeout=800)
        if "No error has been found" not in t.out: raise common.CheckError("the model violates its own properties: " + t.out[t.out.find("Error:"):][:1500])
        replayed = not (prop == "C19" and what == "docs")
        st.model(f"MCText {what} {size if what == 'texts' else ''}", t, "exhaustive; invariants " + inv + ("; every case replayed on the implementation" if replayed else ""))
        if not replayed: continue
        cases = sorted((json.loads(s[5:]) for s in t.printed if s.startswith("CASE ")), key=json.dumps)
        if not cases: raise common.CheckError("the model generated no cases")
        out = gen_text.from_model(cases, what, prop, f"{common.seed()}/{prop}/{what}", first)
        first += len(out)
        yield out

def model_data(prop, st):
    """chains of documents that may be generated; every setting of the generator"""
    size = 4 if common.tier() == "thorough" else 3
    inv = "FirstConforms StepsConform PatchesLead ViewIsFile SameSignals TimesGrow Quiet"
    out = []
    for what in ("chain", "cases"):
        cfg = write_cfg("MCDataset.cfg", ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE", "CONSTANTS", f'  What = "{what}"', f"  MaxFiles = {size}", "INVARIANTS " + inv])
        t = common.tlc("MCDataset", cfg, timeout=600)
        if "No error has been found" not in t.out: raise common.CheckError("the model violates its own properties: " + t.out[t.out.find("Error:"):][:1500])
        st.model(f"MCDataset {what} MaxFiles={size}", t, "exhaustive; invariants " + inv if what == "chain" else "every schema of at most two signals and every setting; replayed on the generator")
        out += [json.loads(s[5:]) for s in t.printed if s.startswith("CASE ")]
    if not out: raise common.CheckError("the model generated no cases")
    out.sort(key=json.dumps)
    return out

def model(prop, st, module, consts, inv, note="", gen=False, sample=0):
    """check a model; -> its cases if it is to generate them"""
    c = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"] + (["CONSTANTS"] + ["  " + x for x in consts] if consts else []) + ["INVARIANTS " + inv]
    if gen: c.append("ACTION_CONSTRAINT Script")
    t = common.tlc(module, write_cfg(module + ".cfg", c), timeout=800)
    if "No error has been found" not in t.out: raise common.CheckError("the model violates its own properties: " + t.out[t.out.find("Error:"):][:1500])
    st.model(module + " " + " ".join(consts), t, "exhaustive; invariants " + inv + note)
    if not gen: return []
    cases = sorted((json.loads(s[5:]) for s in t.printed if s.startswith("CASE ")), key=json.dumps)
    if not cases: raise common.CheckError("the model generated no cases")
    if sample and len(cases) > sample: cases = random.Random(f"{common.seed()}/{prop}/cases").sample(cases, sample)
    return cases

def jobs_exp(prop, st, thorough, seed):
    if prop == "C24":
        inv = "Told Apart Reason Prompt Chained"
        model(prop, st, "MCScenario", [f"MaxSteps = {5 if thorough else 4}", "Gen = FALSE", f"Scns = {{{', '.join(json.dumps(x) for x in (gen_exp.SCN[:1] if thorough else gen_exp.SCN))}}}"], inv)
        cases = model(prop, st, "MCScenario", [f"MaxSteps = {4 if thorough else 3}", "Gen = TRUE", 'Scns = {"urban_traffic", "battery_charging"}' if thorough else 'Scns = {"urban_traffic"}'],
                      inv, "; every case (thorough: 30000 of them) replayed on the implementation", gen=True, sample=30000)
        yield families.SCENARIO, gen_exp.scenario_from_model(cases, f"{seed}/{prop}")
        for k in range(0, 12000 if thorough else 1500, 3000):
            yield families.SCENARIO, gen_exp.scripts(3000 if thorough else 1500, f"{seed}/{k}", prop)
    elif prop == "C34":
        inv = "LastSaved Apart InOrder Durable Complete"
        cases = model(prop, st, "MCRecorder", [f"MaxSteps = {4 if thorough else 3}", "Gen = TRUE"], inv, "; cases replayed on the implementation", gen=True, sample=12000 if thorough else 1200)
        if thorough: model(prop, st, "MCRecorder", ["MaxSteps = 5", "Gen = FALSE"], inv)
        yield families.RECORDER, gen_rec.from_model(cases, f"{seed}/{prop}")
        for k in range(0, 12000 if thorough else 900, 900):
            yield families.RECORDER, gen_rec.scripts(900, f"{seed}/{k}", prop)
    elif prop == "C30":
        model(prop, st, "MCVehicle", [f"MaxMoves = {6 if thorough else 4}"], "Entered Still Drains Driving InLimits Memoryless Shape")
        for k in range(0, 12000 if thorough else 600, 600):
            yield families.VEHICLE, gen_exp.scripts(600, f"{seed}/{k}", prop)
    elif prop == "C25":
        inv = "Construction Snapshots Commutes Causal"
        if thorough: model(prop, st, "MCTJson", ["MaxOps = 4", "MaxTime = 3", 'Paths = {"p"}', "Gen = FALSE"], inv)
        cases = model(prop, st, "MCTJson", ["MaxOps = 3", "MaxTime = 3", 'Paths = {"p", "q"}' if thorough else 'Paths = {"p"}', "Gen = TRUE"], inv,
                      "; every case replayed on the implementation", gen=True)
        yield families.TJSON, gen_exp.tjson_from_model(cases, f"{seed}/{prop}")
        for k in range(0, 20000 if thorough else 2000, 2000):
            yield families.TJSON, gen_exp.scripts(2000, f"{seed}/{k}", prop)
    else:
        model(prop, st, "MCExperiment", [f"MaxTime = {6 if thorough else 4}"], "Explained Worth Ordered OnTime Counters Agree Never")
        if prop == "C29":
            for k in range(0, 12000 if thorough else 1200, 1200):
                yield families.TQUERY, gen_exp.tqueries(1200, f"{seed}/{k}")
        for k in range(10 if thorough else 1):
            yield families.EXPRUN, gen_exp.scripts(9 if thorough else 6, f"{seed}/{k}", prop)

def jobs_page(prop, st, thorough, seed):
    inv = "Allowed Honest Once Ready Settled"
    consts = lambda steps, gen, fails: [f"MaxSteps = {steps}", "MaxOpen = 4", "Careful = TRUE", f"Gen = {gen}", f"Fails = {fails}"]
    model(prop, st, "MCPage", consts(9 if thorough else 7, "FALSE", "TRUE"), inv)
    cases = model(prop, st, "MCPage", consts(6 if thorough else 5, "TRUE", "FALSE"), inv, "; the cases (at most 40000 of them) replayed on the page", gen=True, sample=40000 if thorough else 4000)
    yield families.PAGE, gen_page.from_model(cases, f"{seed}/{prop}")
    for k in range(0, 20000 if thorough else 1200, 2000):
        yield families.PAGE, gen_page.scripts(2000 if thorough else 1200, f"{seed}/{k}/{prop}", prop)

def jobs_together(prop, st, thorough, seed):
    for room in (0, 1, 2):
        model(prop, st, "MCTogether", ["Copies = TRUE", f"MaxPush = {3 if thorough else 2}", f"Room = {room}"], "Apart CallerSame NoRace")
    log, patch, text = families.TOGETHER
    n = 8 if thorough else 1
    for k in range(n):
        yield log, gen_log.together(320, f"{seed}/{k}/{prop}")
        yield patch, gen_patch.scripts(800, f"{seed}/{k}/{prop}", "C14") + [dict(s, sid=s["sid"] + 50000) for s in gen_patch.scripts(400, f"{seed}/{k}/{prop}", "C15")]
        yield text, [dict(s, sid=s["sid"] + 50000 * i) for i, f in enumerate(("C18", "C19", "C21", "C17")) for s in gen_text.scripts(240, f"{seed}/{k}/{prop}", f)]

def jobs(prop, st):
    thorough = common.tier() == "thorough"
    seed = common.seed()
    if prop in LOGP:
        model_log(prop, st)
        yield families.LOG, generated(prop, st, 3000 if thorough else 120, 7)
        n = 24000 if thorough else 1500
        for k in range(0, n, 6000):
            yield families.LOG, gen_log.scripts(min(6000, n - k), f"{seed}/{k}", prop)
    elif prop in ("C13", "C14", "C15", "C16"):
        yield families.PATCH, model_patch(prop, st)
        n = 40000 if thorough else 3000
        for k in range(0, n, 10000):
            yield families.PATCH, gen_patch.scripts(min(10000, n - k), f"{seed}/{k}", prop)
    elif prop in TEXT:
        for out in model_text(prop, st): yield families.TEXT, out
        n = 40000 if thorough else 2500
        for k in range(0, n, 5000):
            yield families.TEXT, gen_text.scripts(min(5000, n - k), f"{seed}/{k}", prop)
    elif prop in ("C22", "C23", "C27"):
        web = prop == "C23"
        fam = families.WEB if web else families.DATA
        cases = model_data(prop, st)
        if web: cases = random.Random(f"{seed}/web").sample(cases, len(cases) if thorough else 300)
        yield fam, ([gen_data.demo(1, f"{seed}/demo")] if web else []) + gen_data.from_model(cases, f"{seed}/{prop}/m", web)
        n = (6000 if thorough else 600) // (2 if web else 1)
        for k in range(0, n, 1000):
            yield fam, gen_data.scripts(min(1000, n - k), f"{seed}/{k}", prop)
    elif prop in ("C24", "C25", "C26", "C28", "C29", "C30", "C34"):
        yield from jobs_exp(prop, st, thorough, seed)
    elif prop == "C33":
        yield from jobs_together(prop, st, thorough, seed)
    elif prop in ("C31", "C32"):
        yield from jobs_page(prop, st, thorough, seed)
    else:
        raise common.CheckError("unknown property " + prop)
