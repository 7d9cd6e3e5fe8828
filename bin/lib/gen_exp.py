"""Scripts for the experiments: the scenario switch and the temporal JSON baseline."""
import json, random

SCN = ["urban_traffic", "highway_cruising", "battery_charging"]

# ------------------------------------------------------------------ scenario

def scenario_from_model(cases, seed, first=500000):
    r = random.Random(f"{seed}/scn")
    out = []
    for i, c in enumerate(cases):
        out.append({"sid": first + i, "init": c["init"], "full": i % 25 == 0, "steps": [dict(s, k=r.randint(0, 1)) for s in c["steps"]]})
    return out

LEVELS = [0, 1, 50000, 99999, 100000, 100001, 100100, 100050, 300000, 500000, 990000, 999000, 999400, 999499, 999500, 999501, 1000000]

def scenario(sid, r):
    t, steps = r.choice([0, 0, 100, 59999, 60000, 10**9]), []
    mood = r.random()
    for _ in range(r.randint(2, 30)):
        x = r.random()
        lev = r.choice(LEVELS) if x < 0.6 else r.randint(0, 1000000) if x < 0.75 else r.choice([100000, 0, 99999, 999500, 1000000]) if x < 0.93 else -1
        steps.append({"r": lev, "t": t, "k": r.randint(0, 1)})
        y = r.random()
        t += r.choice([0, 1, 100, 100, 59999, 60000, 60001, 30000, 29999, 30001, 120000]) if y < mood else r.choice([100, 1000, 20000, 60000, 60000])
    return {"sid": sid, "init": {"scn": r.choice(SCN + ["urban_traffic"] * 4), "level": r.choice(LEVELS)}, "full": r.random() < 0.3, "steps": steps}

def charge_cycles(sid, r):
    """a battery that falls and rises in steps of simulated time"""
    t, lev, steps, step = 0, r.randint(100000, 300000), [], r.choice([100, 100, 500, 1000, 20000])
    down, up = r.randint(1, 4) * step // 4, r.randint(1, 12) * step // 4
    mode = -1
    for _ in range(60 if step < 5000 else 120):
        steps.append({"r": lev, "t": t, "k": 0})
        t += step if r.random() < 0.9 else step * r.choice([2, 10, 60])
        if lev <= 100000 and r.random() < 0.4: mode = 1
        if lev >= 999500 and r.random() < 0.4: mode = -1
        lev += mode * (down if mode < 0 else up) * r.choice([1, 1, 10, 100])
        lev = max(0, min(1000000, lev))
    return {"sid": sid, "init": {"scn": "urban_traffic", "level": r.randint(0, 1000000)}, "full": r.random() < 0.5, "steps": steps}

# ------------------------------------------------------------------ vehicles

def vehicle(sid, r):
    ev, t = [{"c": "init", "scn": r.choice(SCN + ["mixed_scenario"])}], r.choice([0, 1, 60000])
    soc, cur = None, "urban"
    for _ in range(r.randint(0, 7)):
        if r.random() < 0.6:
            ev.append({"c": "shake", "vals": [[r.randrange(1000), r.choice([0, 0, 1, 17, 500, 999, 1000, r.randrange(1001)])] for _ in range(r.choice([1, 3, 30]))]})
        t += r.choice([60000, 60000, 60001, 250000, 100, 59999])
        ev.append({"c": "step", "soc": r.choice([10000, 9999, 0, 5000] if cur == "urban" else [100000, 99950, 99951, 100000]) if r.random() < .85 else r.randrange(100001), "t": t})
        if r.random() < .8: cur = "charging" if cur == "urban" else "urban"
    if r.random() < .2: ev.append({"c": "init", "scn": r.choice(SCN + ["mixed_scenario"])})
    some = lambda pats: [r.choice(pats) for _ in range(3)]
    defs = [{"i": r.randrange(1000), "pats": some(["random_walk", "linear", "sinusoidal", "constant_with_noise", "constant", "", "stepped"]),
             "bools": some(["toggle", "constant", "constant", ""]), "lo": r.choice([0, 0, 1, 40]), "hi": r.choice([0, 0, 1, 40])}
            for _ in range(r.choice([0, 0, 3, 60]))]
    return {"sid": sid, "ev": ev, "defs": defs}

# ------------------------------------------------------------------ tjson

def name(r): return r.choice(["Vehicle", "Speed", "a", "b", "Row1", "x y", "\u00fc", "Is-Open", "0", "children", "data", "timestamp"])

def locations(r, n):
    """locations none of which is inside another"""
    out = []
    for _ in range(n * 8):
        if len(out) == n: break
        p = tuple(name(r) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
        if out and r.random() < 0.6: p = r.choice(out)[:-1] + (name(r),)
        if all(p[:len(q)] != q and q[:len(p)] != p for q in out): out.append(p)
    return out

def spelled(p, r):
    x = r.random()
    if x < 0.4: return ".".join(p)
    if x < 0.6: return "/".join(p)
    if x < 0.8: return "/" + "/".join(p)
    if x < 0.9: return "/" + ".".join(p)
    return "".join(s + (r.choice(["/", "."]) if i < len(p) - 1 else "") for i, s in enumerate(p))

def value(r):
    x = r.random()
    if x < 0.5: return r.choice([0, 1, -1, 0.25, 0.5, 10, 10.25, 30, -2.5, 1000000, 40, 41, -40])
    if x < 0.75: return r.choice(["u", "w", "", "10", "true", "\u00fc", "a\"b", "<x>", "null", "u" * 200])
    if x < 0.92: return r.random() < 0.5
    if x < 0.97: return r.choice([[1, 2], [], ["u", True], [1, 3]])
    return r.choice([{"@x": 1}, {"@x": 2}, {"@x": 1, "@y": "u"}, {"@x": {"@z": True}}, {}])

def queries(locs, ops, r, n):
    marks = sorted({o["t"] for o in ops}) or [5]
    def near(): return max(0, r.choice(marks) + r.choice([0, 0, 0, 1, -1, 2, -2])) if r.random() < 0.9 else r.choice([0, 1, 999999, 1999999999 - 5])
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.4: out.append({"c": "snapshot", "t": near()})
        else:
            a, b = sorted((near(), near()))
            if r.random() < 0.25: a, b = 0, 1000000
            p = ".".join(r.choice(locs) if locs and r.random() < 0.8 else (name(r), name(r), "nowhere"))
            if ops and r.random() < 0.9: p = r.choice(ops)["p"]
            q = {"c": "track" if x < 0.7 else "events", "p": p, "a": a, "b": b}
            if q["c"] == "events":
                q["pred"] = r.choice(["all", "over", "over", "is", "is", "none"])
                q["n"] = r.choice([0, 1, 2, 39, 40, 41, -10, 119, 120])
                mine = [o["v"] for o in ops if o["p"] == q["p"] and o["op"] != "remove"]
                q["v"] = r.choice(mine) if mine and r.random() < 0.8 else value(r)
            out.append(q)
    return out

BASES = [0, 0, 0, 1600000000000, 1700000000000000000]

def tjson(sid, r):
    locs = locations(r, r.choice([1, 1, 2, 3, 5, 8]))
    span = r.choice([3, 6, 20, 300000])
    n = r.choice([1, 2, 4, 4, 8, 8, 16, 40, 40, r.choice([40, 40, 200])]) if r.random() < 0.98 else 0
    few = [value(r) for _ in range(r.choice([1, 2, 3]))]
    times = [r.randint(1, span) for _ in range(n)]
    if r.random() < 0.6: times.sort()
    elif r.random() < 0.3: times.sort(reverse=True)
    removing = r.choice([0, 0.1, 0.3, 0.5])
    ops = []
    inner = sorted({p[:k] for p in locs for k in range(1, len(p))})
    for t in times:
        if inner and r.random() < 0.08:         # an object beside the locations below
            p = r.choice(inner)
            op = "remove" if r.random() < removing else r.choice(["add", "replace"])
            ops.append({"op": op, "p": ".".join(p), "sp": spelled(p, r), "v": None if op == "remove" else r.choice([{"@x": 1}, {"@x": 2}, {"@y": "u", "@x": 1}]), "t": t})
            continue
        p = r.choice(locs)
        op = "remove" if r.random() < removing else r.choice(["add", "replace"])
        ops.append({"op": op, "p": ".".join(p), "sp": spelled(p, r), "v": None if op == "remove" else r.choice(few) if r.random() < 0.8 else value(r), "t": t})
    if r.random() < 0.12: ops, items = periods(locs, span, few, r)
    else: items = []
    return {"sid": sid, "base": r.choice(BASES), "ops": ops, "items": items, "qs": queries(locs, ops, r, r.choice([6, 12, 20]))}

def periods(locs, span, few, r):
    """a document of periods added one by one, and the operations it stands for"""
    ops, items = [], []
    for p in locs:
        t, name = r.randint(1, span), ".".join(p)
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            t += r.choice([0, 0, 1, 2, span])
            e = t + r.choice([0, 0, 1, 2, r.randint(0, span)]) if r.random() < .85 else -1
            v = r.choice(few)
            items.append({"p": name, "v": v, "s": t, "e": e})
            ops.append({"op": "add", "p": name, "sp": name, "v": v, "t": t})
            if e < 0: break
            ops.append({"op": "remove", "p": name, "sp": name, "v": None, "t": e + 1})
            t = e + 1
    r.shuffle(items)
    return ops, items

def tjson_from_model(cases, seed, first=600000):
    r = random.Random(f"{seed}/tj")
    out = []
    form = {"p": ("v", "p"), "q": ("v", "q")}
    for i, c in enumerate(cases):
        flatform = r.random() < 0.5
        loc = {k: (v[1:] if flatform else v) for k, v in form.items()}
        ops = [{"op": o["op"], "p": ".".join(loc[o["p"]]), "sp": spelled(loc[o["p"]], r), "v": o["v"]["x"] if o["op"] != "remove" else None, "t": o["t"]} for o in c]
        top = max([o["t"] for o in ops], default=1) + 1
        qs = [{"c": "snapshot", "t": t} for t in range(0, top + 1)]
        for k in sorted({o["p"] for o in c}):
            a, b = sorted((r.randint(0, top), r.randint(0, top)))
            p = ".".join(loc[k])
            qs += [{"c": "track", "p": p, "a": 0, "b": top}, {"c": "events", "p": p, "a": a, "b": b, "pred": "is", "n": 0, "v": r.choice(["u", "w"])}]
        out.append({"sid": first + i, "base": r.choice(BASES), "ops": ops, "qs": qs})
    return out

# ------------------------------------------------------------------ temporal queries over both

def plain(r):
    x = r.random()
    if x < 0.7: return r.choice([0, 1, -1, 0.25, 0.5, 10, 10.25, 30, -2.5, 1000000])
    if x < 0.85: return r.choice(["u", "w", "", "10", "\u00fc", "a\"b", "<x>"])
    return r.random() < 0.5

def tquery(sid, r):
    pool = ["Vehicle", "Speed", "a", "b", "Row1", "x y", "\u00fc", "Is-Open", "Cabin", "Left"]
    locs = []
    for _ in range(r.choice([1, 2, 4, 8]) * 4):
        p = tuple(r.choice(pool) for _ in range(r.choice([2, 2, 3, 4])))
        if locs and r.random() < 0.6: p = r.choice(locs)[:-1] + (r.choice(pool),)
        if all(p[:len(q)] != q and q[:len(p)] != p for q in locs): locs.append(p)
    born = locs[:max(1, len(locs) * 3 // 4)]
    if r.random() < .3:                     # an array of values
        at = r.choice(born)[:-1] + (r.choice(["List", "Row1s"]),)
        if len(at) > 1 and all(p[:len(at)] != at and at[:len(p)] != p for p in locs):
            new = [at + (str(i),) for i in range(r.randint(1, 12 if r.random() < .2 else 3))]
            born = born + new; locs = locs + new
    inner = {q[:k] for q in born for k in range(1, len(q))}
    late = [p for p in locs if p not in born and p[:-1] in inner]
    init = [{"p": list(p), "v": plain(r) if r.random() < .97 else None} for p in born]
    span, n = r.choice([3, 10, 1000, 300000]), r.choice([1, 2, 5, 10, 30, 60])
    times = sorted(r.choice([0, 100, 100, 200]) if r.random() < 0.1 else r.randint(0, span) for _ in range(n))
    ops, have = [], set(born)
    hot = r.sample(locs, min(len(locs), 3))
    for t in times:
        p = r.choice([q for q in (hot if r.random() < 0.6 else locs) if q in have or q in late] or born)
        op = r.choice(["add", "replace", "replace"]) if p in have else "add"
        have.add(p)
        ops.append({"op": op, "p": ".".join(p), "v": plain(r), "t": t})
    used = sorted({o["p"] for o in ops} | {".".join(p) for p in born})
    near = lambda: max(0, r.choice(times) + r.choice([0, 0, 1, -1, 5]))
    qs = []
    for c in r.sample(["track", "search", "track", "search"], r.randint(1, 4)):
        a, b = sorted((near(), near())) if r.random() < 0.7 else (0, span + 1)
        q = {"c": c, "ps": r.sample(used, min(len(used), r.randint(1, 3))), "a": a, "b": b}
        if c == "search": q["ns"] = r.sample([-10, -1, 0, 1, 2, 39, 40, 41, 42, 120], r.randint(1, 3))
        qs.append(q)
    return {"sid": sid, "base": 0, "init": init, "ops": ops, "snaps": sorted({near() for _ in range(6)} | {0}) if r.random() < 0.9 else [], "qs": qs,
            "after": sorted({0, n} | {r.randint(0, n) for _ in range(3)}) if r.random() < .25 else []}

def tqueries(n, seed):
    return [tquery(i + 1, random.Random(f"{seed}/tq/{i}")) for i in range(n)]

def scripts(n, seed, prop):
    if prop == "tq": return tqueries(n, seed)
    out = []
    for i in range(n):
        r = random.Random(f"{seed}/{prop}/{i}")
        sid = 1 + i
        if prop in ("C26", "C28", "C29"): out.append({"sid": sid, "run": i // 3, "scn": SCN[i % 3], "query": i % 3 == 0,
                                                          "alter": 0 if i < 3 else random.Random(f"{seed}/{i // 3}").randint(1, 10**6)})
        elif prop == "C30": out.append(vehicle(sid, r))
        elif prop == "C24": out.append(scenario(sid, r) if r.random() < 0.6 else charge_cycles(sid, r))
        else: out.append(tjson(sid, r))
    return out
