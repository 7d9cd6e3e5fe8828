"""Random histories of saves and sensor records (what the experiments leave on disk)."""
import json, random

KINDS = ["initial_json", "initial_tson", "json_patch", "tson_patch", "all_json", "all_tson", "final_json", "final_tson", "json_snapshot", "tson_snapshot"]
SCN = ["urban_traffic", "highway_cruising", "battery_charging", "mixed_scenario", "urban", "json"]
PATHS = ["Vehicle.Speed", "Vehicle.Cabin.Door.IsOpen", "Vehicle.Powertrain.Battery.Level", "Speed", "Vehicle.Chassis.Axle.Row1.Speed", "Vehicle.Body.Name", "A.b", "A.b.c"]
TEXTS = ["", "on", "a,b", 'say "x"', "<&>", "\u00fc", "12.50", "two\nlines", " x ", "a rather long text which a sensor has"]

def value(r, depth=3):
    c = r.random()
    if depth == 0 or c < 0.4:
        return r.choice([0, 1, -1, 2.5, 1e21, 1.7976931348623157e308, 0.1, 123456789, True, False, None, *TEXTS, "y" * r.choice([50, 5000])])
    if c < 0.7: return {r.choice(["a", "b", "Vehicle.Speed", "value", "\u00e9", "", "<x>"]): value(r, depth - 1) for _ in range(r.randint(0, 4))}
    return [value(r, depth - 1) for _ in range(r.randint(0, 4 if depth > 1 else r.choice([4, 4, 60])))]

def ops(r):
    return [{"op": r.choice(["add", "replace"]), "path": r.choice(PATHS), "value": value(r, 0), "timestamp": r.choice([0, 1, 1700000000123456789, -5, r.randint(0, 10**18)])} for _ in range(r.randint(0, 6))]

def save(r, stos, recent):
    if recent and r.random() < 0.35: kind, i = r.choice(recent)
    else: kind, i = r.choice(KINDS), r.choice([0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 10001, 12345, 100000, 123456, 10**9, 10**9 + 1, 10**10])
    recent.append((kind, i))
    if r.random() < 0.5:      # its like
        recent.append((r.choice([kind, kind.replace("json", "tson") if "json" in kind else kind.replace("tson", "json")]), r.choice([i, i * 10, i + 1, i // 10])))
    c = r.random()
    v = ops(r) if c < 0.25 else value(r)
    return {"c": "save", "s": r.randrange(stos), "kind": kind, "i": i, "v": v, "as": "ops" if c < 0.25 else "bad" if c > 0.92 else ""}

def signal(r, kind):
    if kind == "n": return r.choice([0, 1, -1, 0.0001, 99.95, 99.9999, -0.5, 1234.5678, 199999, r.randint(-10**6, 10**6) / 10**4, r.random() * 100])
    if kind == "b": return r.random() < .5
    return r.choice(TEXTS)

def script(sid, r):
    pairs, names = [], SCN[:]
    r.shuffle(names)
    for k in range(r.choice([0, 1, 1, 2, 3])): pairs.append([r.choice(["r", "r", "other"]), names[k]])
    if len(pairs) > 1 and r.random() < .3: pairs[1] = ["third", pairs[0][1]]
    recs = r.sample(SCN, r.choice([0, 1, 1, 2]) if pairs else r.choice([1, 1, 2]))
    keys = r.sample(PATHS, r.randint(1, 5))
    kinds = [r.choice("nnnbs") for _ in keys]
    cat = [r.choice([-1, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5]) for _ in keys]
    long = r.random() < .06
    clock, opened, ev, recent = [0] * len(recs), [True] * len(recs), [], []
    step = r.choice([100, 100, 200, 250, 1000, 70])
    for _ in range(r.randint(3, 15) if not long else 400):
        if pairs and (not recs or r.random() < (.5 if not long else .005)): ev.append(save(r, len(pairs), recent)); continue
        if not recs: continue
        k = r.randrange(len(recs))
        if not opened[k]:
            if r.random() < .5: ev.append({"c": "open", "r": k}); opened[k] = True; clock[k] = 0
            continue
        c = r.random()
        if c < (.04 if not long else .001): ev.append({"c": "close", "r": k}); opened[k] = False
        elif c < (.16 if not long else .005): ev.append({"c": "look"})
        else:
            if r.random() < .05: cat = [r.choice([-1, 0, 1, 2, 3, 4, 5]) for _ in keys]
            ev.append({"c": "record", "r": k, "t": clock[k], "cat": cat, "vals": [signal(r, x if r.random() < .95 else "s") for x in kinds]})
            clock[k] += step if r.random() < .9 else r.choice([0, 1, 1000, 999, 5000])
            if r.random() < (.1 if not long else .003): ev.append({"c": "look"})
    for k in range(len(recs)):
        if opened[k] and r.random() < .8: ev.append({"c": "close", "r": k})
    return {"sid": sid, "keys": keys, "stos": pairs, "recs": recs, "ev": ev}

def scripts(n, seed, prop):
    return [script(1 + i, random.Random(f"{seed}/{prop}/{i}")) for i in range(n)]

def from_model(cases, seed, first=500000):
    r = random.Random(f"{seed}/rec")
    out = []
    for n, c in enumerate(cases):
        a = r.sample([(k, i) for k in KINDS for i in (0, 1, 12)], 2)
        vals = {"1": value(r, 2), "2": value(r, 2), "bad": 1}
        ev = []
        for s in c["steps"]:
            if s["c"] == "save":
                kind, i = a[s["k"] == "b"]
                ev.append({"c": "save", "s": 0, "kind": kind, "i": i, "v": vals[s["v"]], "as": "bad" if s["v"] == "bad" else ""})
            elif s["c"] == "record":
                ev += [{"c": "record", "r": 0, "t": s["t"], "cat": [n % 6], "vals": [float(s["v"])]}, {"c": "look"}]
            else: ev.append({"c": "close", "r": 0})
        out.append({"sid": first + n, "keys": ["Vehicle.Speed"], "stos": [["r", SCN[n % 3]]], "recs": [SCN[n % 3]], "ev": ev})
    return out
