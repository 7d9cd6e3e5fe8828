"""Random call scripts for logs."""
import random
from . import docs

BAD_PATCH = ["", "[", "[{]", '[{"op":"add","path":"/a","value":1,"timestamp":1}', '{"op":', "nope",
             '[{"op":1}]', '[{"op":"add","path":"/a","value":1,"timestamp":"x"}]', '[}', '["add"',
             '[{"op":"add","path":"/a","value":1,"timestamp":1},]', '[{"op":"add" "path":"/a"}]', '"x']
BAD_DOC = ["{", "}", "[", '{"a" <1>: }', '{"a" <1> 5}', '{"a <1>: 5}', '{"a" <1: 5}', '{"a" <1>: 5', '{"a": [1, }',
           '{"a" <1>: 5} x', '{"a": {"b" <1>: 2}', "tru", '{"a" <x>: 5}', '{: 5}', '[1 2]', '{"a" <1>: 5,, "b" <1>: 6}']

TSMAPS = [{"base": 0, "mult": 1}, {"base": 1700000000, "mult": 1}, {"base": 1700000000000000000, "mult": 1},
          {"base": 9007199254740992, "mult": 1}, {"base": 0, "mult": 1000000007}]

BASE_W = {"store": 6, "append": 5, "snapshot": 2, "tsnap": 1, "slice": .5, "tslice": .5, "track": .7, "ttrack": .7,
          "set": 1, "testset": 1, "compact": .15, "history": .1, "bad": .3, "stay": 0}

FOCUS = {
    "C01": {"store": 9, "append": 6, "set": 2, "testset": 2, "bad": .5},
    "C02": {"snapshot": 7, "compact": .05},
    "C03": {"slice": 1.5, "tslice": 1.5, "snapshot": 3, "tsnap": 3, "track": 2, "ttrack": 2, "set": 2, "testset": 2},
    "C04": {"track": 6, "compact": .03},
    "C05": {"ttrack": 6, "compact": .03},
    "C06": {"tsnap": 6, "compact": .03},
    "C07": {"slice": 3, "snapshot": 3, "compact": .1},
    "C08": {"tslice": 3, "tsnap": 4, "compact": .05},
    "C09": {"set": 5, "testset": 8, "store": 3, "append": 3, "compact": .05},
    "C10": {"compact": 2.5, "set": 2, "snapshot": 3, "tsnap": 2, "history": .4},
    "C11": {"history": 2.5, "compact": .4, "snapshot": 1},
    "C12": {"bad": 6, "snapshot": 2},
}

class Log:
    """what the generator believes about a log, to keep most calls sensible"""
    def __init__(self, doc, first=0):
        self.doc, self.cur, self.first, self.last, self.pool = doc, doc, first, first, 0
        self.recent, self.plan = [], []

def script(sid, seed, focus):
    r = random.Random(seed)
    size = r.random()
    prof = {"few": r.random() < 0.7, "again": r.choice([0.3, 0.5, 0.75]), "nulls": r.choice([0, 0.08]),
            "longarr": r.random() < 0.15, "odd_roots": r.random() < 0.3, "array_root": r.random() < (.1 if focus in ("C04", "C05", "C10", "C11") else .04)}
    docs.pick_keys(r, prof, .7 if focus in ("C01", "C12") else .2)
    if focus in ("C10", "C11"): prof.pop("far", None)
    ptr = r.random() < 0.75 or prof.get("keys") == docs.ESC_KEYS
    text = docs.pointer if ptr else docs.dotted
    w = dict(BASE_W); w.update(FOCUS.get(focus, {}))
    wild = r.random() < 0.06          # also operations that cannot be applied
    temporal = focus in ("C05", "C06", "C08", "C10", "C11")
    mode = r.choice(["mono", "mono", "rand", "rand", "equal", "neg", "huge"] if temporal else
                    ["mono", "mono", "rand", "equal", "neg"])
    clock = [0]
    def ts():
        if mode == "mono":
            clock[0] += r.choice([0, 0, 1, 1, 2]); return clock[0]
        if mode == "rand": return r.randint(0, 12)
        if mode == "equal": return r.choice([3, 3, 3, 4, 2])
        if mode == "neg": return r.randint(-4, 6)
        return r.choice([0, 1, 2, 3, 1000000, -1000000, -1])
    def qt():
        if mode == "mono": return r.randint(-1, clock[0] + 1)
        if mode == "huge": return r.choice([-1000000, -1, 0, 1, 2, 3, 1000000])
        return r.randint(-5, 13) if mode == "neg" else r.randint(0, 13)
    if mode == "mono" and r.random() < 0.5:
        dts = lambda: 0
    else:
        dts = lambda: r.choice([0, 1, -1, 2])
    doc = docs.rand_doc(r, prof, dts, depth=r.randint(1, 3))
    if doc["k"] == "Z" and r.random() < .5: doc = docs.O({})
    calls = []
    logs = {}
    removes = r.choice([0.1, 0.2, 0.35]) if focus not in ("C06", "C08") else r.choice([0, 0.05, 0.15, 0.25])

    def motif(L):
        """a value is written, something at, above, below or beside it changes, and the same value is written again"""
        lv = docs.leaves(L.doc)
        p = r.choice(lv) if lv else None
        if r.random() < .4 and L.recent: p = r.choice(L.recent)
        if not p: return []
        v = docs.rand_val(r, prof)
        other = {"op": "remove", "val": docs.Z}
        if r.random() < .2: other["val"] = v      # a removal may have a value, which says nothing
        if r.random() < .3 and docs.at(L.doc, p) is not None and docs.at(L.doc, p)["k"] in docs.LEAF:
            n = docs.at(L.doc, p); v = {"k": n["k"], "v": n["v"]}
        k = r.choice(["self", "sibling", "sibling", "above", "below", "other", "set-sibling"])
        par = docs.at(L.doc, p[:-1])
        near = []
        if par is not None and par["k"] == "A": near = [p[:-1] + (i,) for i in range(len(par["e"]))]
        elif par is not None and par["k"] == "O": near = [p[:-1] + (x,) for x in par["m"] if x != p[-1]]
        if k == "self" or (k == "sibling" and not near): q = p
        elif k == "sibling": q = r.choice(near)
        elif k == "above" and len(p) > 1: q = p[:r.randint(1, len(p) - 1)]
        elif k == "below": q = p + (r.choice(docs.POOL_KEYS),); other = {"op": "add", "val": docs.rand_val(r, prof)}
        elif k == "set-sibling" and near: q = r.choice(near); other = {"op": "replace", "val": docs.rand_val(r, prof)}
        else: q = r.choice(docs.locations(L.doc) or [p])
        again = [(q, other)] * r.choice([1, 1, 1, 2]) + [(p, {"op": r.choice(["add", "replace"]), "val": v})]
        return [(p, {"op": "add", "val": v})] + again

    def good_op(L, commit=True):
        if not L.plan and r.random() < (.12 if focus in ("C04", "C05", "C10", "C11") else .04): L.plan = motif(L)
        for _ in range(6):
            if L.plan:
                toks, op = L.plan.pop(0); op = dict(op, ts=ts())
                if not toks: continue
            else: toks, op = docs.rand_op(r, prof, L.doc, L.recent, ts(), removes)
            d = docs.apply(L.doc, toks, op)
            if d is not None or (wild and r.random() < 0.3): break
        else:
            toks = (r.choice(prof.get("keys", docs.POOL_KEYS)),)
            op = {"op": "add", "val": docs.rand_val(r, prof), "ts": ts()}
            d = docs.apply(L.doc, toks, op)
            if d is None:
                toks = (0,); d = docs.apply(L.doc, toks, op)
            if d is None:
                toks = (); d = docs.apply(L.doc, toks, op)
        if wild and r.random() < 0.08: op["op"] = r.choice(["test", "move", "copy", "bogus", ""])
        if wild and r.random() < 0.05: op["val"] = {"k": "X", "v": "q"}
        if not toks and (op["op"] == "remove" or L.doc["k"] in ("O", "A")):
            toks = ("a",); op["op"] = "add"
            if op["val"]["k"] == "Z": op["val"] = {"k": "N", "v": "1"}
            d = docs.apply(L.doc, toks, op)
        if d is not None: L.doc = d
        L.recent = (L.recent + [toks])[-4:]
        return dict(op, path=text(toks))

    def patch(L, n):
        return [good_op(L) for _ in range(n)]

    slots = [0]
    nslot = 1
    stores = 0
    def forms(c, L, n):
        nonlocal stores
        f = r.choice(["patch", "patch", "ops", "op", "list", "text", "bytes"])
        if focus == "C01": f = r.choice(["patch", "ops", "op", "list", "list", "text", "bytes", "reuse"])
        if f == "reuse" and stores > 0:
            c["form"] = "reuse"; c["h"] = r.randrange(stores); stores += 1
            return
        if f == "reuse": f = "patch"
        if f == "op": n = 1
        if n == 0 and r.random() < 0.5: n = 1
        c["form"] = f
        c["p"] = patch(L, n)
        if f in ("text", "bytes"):   # no way to write these
            c["p"] = [p for p in c["p"] if p["val"]["k"] != "X"]
        if f == "list":
            cut = []
            left = n
            while left > 0:
                k = r.randint(0, left); cut.append(k); left -= k
            c["cut"] = cut
        stores += 1
    c = {"c": "new", "to": 0, "d": doc, "t": r.choice([0, 0, 0, 1, 2]), "form": ""}
    L = Log(doc)
    logs[0] = L
    if r.random() < 0.25: 
        forms(c, L, r.randint(0, 2)); L.pool += 1
    calls.append(c)
    long = r.random() < 0.02            # a log of many versions, or a long queue
    big = size > 0.9 and not long
    if long:
        n = r.randint(30, 75) if r.random() < .85 else r.randint(101, 135)
        c = {"c": "bulk", "l": 0, "every": r.choice([1, 1, 1, 1, 2, 40]), "batches": []}
        for _ in range(n): c["batches"].append(patch(L, 1 if r.random() < .9 else 2))
        calls.append(c)
        L.last += n // c["every"] ; L.pool = n % c["every"]
        if L.last > 20 and r.random() < .35:
            vs = [r.choice([v, v, max(0, L.last - v)]) for v in range(L.last + 1)]
            if r.random() < .3: vs = list(range(L.last, -1, -1))
            if r.random() < .2: r.shuffle(vs)
            calls.append({"c": "sweep", "l": 0, "vs": vs[:r.choice([200, 200, 70])]})
    elif not big and temporal and r.random() < 0.03:    # many changes of few locations at the same times
        lv = [p for p in docs.leaves(L.doc) if p][:]
        at = r.sample(lv, min(len(lv), r.randint(1, 2)))
        if L.doc["k"] == "O" and (not at or r.random() < .3): at.append((r.choice(["zz", "y"]),))
        times = r.choice([[3], [2, 3], [2, 2, 2, 3, 5]])
        c = {"c": "bulk", "l": 0, "every": r.choice([3, 7, 15, 40]), "batches": []}
        n = r.randint(18, 45) if at else 0
        for _ in range(n):
            toks = r.choice(at)
            op = {"op": r.choice(["add", "replace", "replace"]), "val": docs.rand_val(r, prof), "ts": r.choice(times)}
            d = docs.apply(L.doc, toks, op)
            if d is None: continue
            L.doc = d
            c["batches"].append([dict(op, path=text(toks))])
        n = len(c["batches"])
        if n:
            calls.append(c)
            L.recent = [tuple(a) for a in at]
            L.last += n // c["every"]; L.pool = n % c["every"]
    steps = r.randint(6, 14) if not big else r.randint(24, 34)
    names = list(w); weights = [w[n] for n in names]
    maxpatch = 3 if not big else r.choice([3, 16, 40, 140 if focus in ('C01', 'C02', 'C14') else 16])
    while len(calls) < steps:
        slot = 0 if len(slots) == 1 or r.random() < 0.5 else r.choice(slots)
        L = logs[slot]
        k = r.choices(names, weights)[0]
        c = {"c": k, "l": slot}
        if k == "store":
            forms(c, L, r.choice([0, 1, 1, 1, 2, 2, maxpatch, maxpatch])); L.pool += 1
        elif k == "append":
            if L.pool: L.last += 1
            elif r.random() < 0.5: continue
            L.pool = 0
        elif k == "snapshot": c["v"] = r.randint(L.first, L.last)
        elif k == "tsnap":
            c["t"] = qt()
            if L.pool: L.last += 1; L.pool = 0
        elif k == "slice":
            if nslot > 4: continue
            c["v"] = r.randint(L.first, L.last); c["vj"] = r.randint(c["v"], L.last); c["to"] = nslot
            M = Log(L.doc, c["v"]); M.last = c["vj"]; M.recent = list(L.recent); logs[nslot] = M; slots.append(nslot); nslot += 1
        elif k == "tslice":
            if nslot > 4: continue
            a, b = qt(), qt()
            c["t"], c["tj"] = min(a, b), max(a, b); c["to"] = nslot
            if L.pool: L.last += 1; L.pool = 0
            M = Log(L.doc, 999); M.last = 999; M.recent = list(L.recent); M.ts = True
            logs[nslot] = M; slots.append(nslot); nslot += 1
        elif k == "track":
            c["v"] = r.randint(L.first, L.last); c["vj"] = r.randint(c["v"], L.last)
            if r.random() < 0.4: c["v"], c["vj"] = L.first, L.last
        elif k == "ttrack":
            a, b = qt(), qt(); c["t"], c["tj"] = min(a, b), max(a, b)
            if r.random() < 0.3: c["t"], c["tj"] = -1000000, 1000000
        elif k in ("set", "testset"):
            c["v"] = L.last
            e = r.random()
            if e < 0.08 and wild is False: op = dict(op=r.choice(["remove", "test", "bogus"]), path=text(r.choice(docs.locations(L.doc) or [("a",)])), val=docs.Z, ts=ts())
            elif e < 0.35:
                lv = docs.leaves(L.doc)
                if not lv: continue
                p = r.choice(lv); n = docs.at(L.doc, p)     # the value it already has
                v = {"k": n["k"], "v": n["v"]}
                if v["k"] == "N" and docs.idx(v["v"]) >= 0 and r.random() < 0.4: v["k"] = "I"
                if r.random() < 0.35: v = docs.near(r, n)
                if n["k"] == "N" and "." in n["v"] and r.random() < 0.5:      # an int next to the number
                    w = n["v"].split(".")[0]
                    if "e" not in n["v"].lower() and len(w) < 9 and w not in ("", "-", "-0"): v = {"k": "I", "v": w}
                op = dict(op="replace", path=text(p), val=v, ts=ts())
            else:
                keep = L.doc
                toks, op = docs.rand_op(r, prof, L.doc, L.recent, ts(), 0)
                if k == "testset" and r.random() < 0.6: op["op"] = "replace"
                if r.random() < 0.05: op["val"] = r.choice([docs.Z, {"k": "X", "v": "1"}])
                d = docs.apply(L.doc, toks, op)
                if d is None and r.random() < 0.7: continue
                if not toks: continue
                L.recent = (L.recent + [toks])[-4:]
                op = dict(op, path=text(toks))
                if d is not None: L.doc = d
            c["o"] = op; L.pool += 1
        elif k in ("compact", "history"):
            locs = docs.locations(L.doc) + L.recent
            e = r.random()
            if e < 0.25: c["path"] = ""
            elif e < 0.35 and ptr: c["path"] = "/"
            else:
                p = (tuple(r.choice(locs)) if locs else ()) or ("a",)
                p = p[:r.randint(1, max(1, len(p)))]
                c["path"] = text(p)
                if ptr and str(p[-1]) and r.random() < 0.15: c["path"] += "/"
            if c["path"].endswith("/") and c["path"] not in ("/",) and not str(c["path"].rstrip("/")): continue
            if "//" in c["path"] or (c["path"].endswith("/") and any(str(x) == "" for x in docs.ESC_KEYS if "keys" in prof)):
                c["path"] = ""
        elif k == "bad":
            e = r.randint(0, 7)
            if e == 0: c = {"c": "snapshot", "l": slot, "v": L.last + r.choice([1, 1, 2, 50])}
            elif e == 1:
                if L.last > L.first:
                    i = r.randint(L.first + 1, L.last); c = {"c": "slice", "l": slot, "v": i, "vj": r.randint(L.first, i - 1), "to": 90}
                else: c = {"c": "slice", "l": slot, "v": L.last, "vj": L.last + 1, "to": 90}
            elif e == 2: c = {"c": "slice", "l": slot, "v": r.randint(L.first, L.last + 1), "vj": L.last + r.choice([1, 2, 9]), "to": 91}
            elif e == 3: c = {"c": "track", "l": slot, "v": r.randint(L.first, L.last), "vj": L.last + r.choice([1, 3])}
            elif e == 4:
                if L.last > L.first:
                    i = r.randint(L.first + 1, L.last); c = {"c": "track", "l": slot, "v": i, "vj": r.randint(L.first, i - 1)}
                else: c = {"c": "track", "l": slot, "v": L.last + 1, "vj": L.last + 1}
            elif e == 5:
                t = qt(); c = {"c": "tslice", "l": slot, "t": t + r.randint(1, 3), "tj": t, "to": 92}
                if t >= 1000000 or t <= -1000000: continue
            elif e == 6:
                t = qt(); c = {"c": "ttrack", "l": slot, "t": t + r.randint(1, 3), "tj": t}
                if t >= 1000000 or t <= -1000000: continue
            else: 
                c = {"c": "store", "l": slot, "form": r.choice(["text", "bytes"]), "raw": r.choice(BAD_PATCH), "bad": True}
                if c["raw"] == "" : c["raw"] = "["
                stores += 1
            if getattr(L, "ts", False) and c["c"] in ("slice", "track", "snapshot"): continue
        if getattr(L, "ts", False) and k in ("snapshot", "slice", "track"):
            a, b = r.random(), r.random()         # placed when the versions are known
            c["rel"] = [a, b] if k == "snapshot" else [min(a, b), max(a, b)]
        calls.append(c)
    if focus in ("C04", "C05", "C10", "C11"):      # all of it, at the end
        L = logs[0]
        if L.pool and r.random() < .8: calls.append({"c": "append", "l": 0}); L.last += 1
        if focus == "C04": calls.append({"c": "track", "l": 0, "v": L.first, "vj": L.last})
        elif focus == "C05": calls.append({"c": "ttrack", "l": 0, "t": -1000000, "tj": 1000000})
        elif r.random() < .5: calls.append({"c": "compact" if focus == "C10" else "history", "l": 0, "path": ""})
    if focus == "C12" and r.random() < 0.25:
        calls.insert(0, {"c": "new", "to": 80, "form": "", "raw": r.choice(BAD_DOC), "bad": True, "t": r.choice([1, 2])})
        # not a store, so "reuse" numbering stays
    return {"sid": sid, "tsmap": r.choice(TSMAPS), "repeat": 1 if focus in ("C10", "C11", "C05", "C04") else 0, "calls": calls}

def scripts(n, seed, focus):
    out = []
    for i in range(n):
        out.append(script(i + 1, f"{seed}/{focus}/{i}", focus))
    return out

def together(n, seed):
    """scripts whose later calls may run at the same time, those on one log in order"""
    r = random.Random(f"{seed}/together")
    out = []
    for i in range(n):
        s = script(i + 1, f"{seed}/{i}", r.choice(["C01", "C03", "C03", "C07", "C08", "C04", "C06", "C09", "C10", "C11"]))
        calls = s["calls"]
        cuts = [j for j, c in enumerate(calls) if c["c"] in ("slice", "tslice", "new")]
        first = r.choice(cuts) if cuts else 0
        at = max(first + 1, len(calls) // 3)
        slots = sorted({c.get("to", 0) for c in calls[:at] if c["c"] in ("slice", "tslice", "new")})
        # every log gets something to do
        block = [c for c in calls[at:] if c["c"] not in ("new", "slice", "tslice")]
        block = [dict(c, l=r.choice(slots)) if r.random() < .5 else c for c in block]
        probes = [{"c": "snapshot", "l": l, "v": 0, "vj": 0, "rel": [r.random(), 0]} for l in slots]
        s["calls"] = calls[:at] + block + probes
        s["par"] = [at, at + len(block)]
        out.append(s)
    return out

# ---- scripts from the model MCLog

MODEL_DOCS = {"flat": docs.O({"a": docs.Nn("1", 0)}),
              "tree": docs.O({"a": docs.O({"b": docs.Nn("1", 0)}), "ab": docs.Nn("1", 0)}),
              "array": docs.O({"l": docs.A([docs.Nn("1", 0), docs.Nn("2", 0)])})}

def from_model(sid, j, r, focus):
    calls = [{"c": "new", "to": 0, "d": MODEL_DOCS[j["vocab"]], "t": r.choice([0, 0, 1]), "form": ""}]
    last, pool = 0, False
    for c in j["calls"]:
        c = dict(c); c["l"] = 0
        if c["c"] == "store":
            o = c.pop("o"); c["form"] = r.choice(["patch", "ops", "op", "text"]); c["p"] = [o]; pool = True
        elif c["c"] in ("set", "testset"): c["v"] = last; pool = True
        elif c["c"] == "append":
            last += 1; pool = False
        calls.append(c)
    probes = []
    for v in range(last + 1): probes.append({"c": "snapshot", "l": 0, "v": v})
    for a in range(last + 1):
        for b in range(a, last + 1):
            probes += [{"c": "track", "l": 0, "v": a, "vj": b}, {"c": "slice", "l": 0, "v": a, "vj": b, "to": 1}]
    for a in range(0, 4):
        probes.append({"c": "tsnap", "l": 0, "t": a})
        for b in range(a, 4):
            probes += [{"c": "ttrack", "l": 0, "t": a, "tj": b}, {"c": "tslice", "l": 0, "t": a, "tj": b, "to": 2}]
    probes += [{"c": "snapshot", "l": 0, "v": last + 2}, {"c": "slice", "l": 0, "v": 1, "vj": 0, "to": 3},
               {"c": "history", "l": 0, "path": ""}, {"c": "compact", "l": 0, "path": r.choice(["", "/a", "/l", "/l/0", "/a/b"])}]
    weight = {"C02": "snapshot", "C04": "track", "C05": "ttrack", "C06": "tsnap", "C07": "slice", "C08": "tslice",
              "C10": "compact", "C11": "history"}.get(focus)
    own = [p for p in probes if p["c"] == weight]
    r.shuffle(own); r.shuffle(probes)
    pick = own[:4] + [p for p in probes if p not in own][:5]
    if focus not in ("C10", "C11"): pick = [p for p in pick if p["c"] not in ("compact", "history")]
    r.shuffle(pick)
    more = []
    for p in pick:
        more.append(p)
        if p.get("to"):   # use the slice
            more += [{"c": "tsnap", "l": p["to"], "t": r.randint(0, 3)}, {"c": "snapshot", "l": p["to"], "rel": [r.random(), 0.9]},
                     {"c": "store", "l": p["to"], "form": "patch", "p": [{"op": "add", "path": "/c", "val": {"k": "N", "v": "5"}, "ts": 2}]},
                     {"c": "append", "l": p["to"]}]
    return {"sid": sid, "tsmap": r.choice(TSMAPS), "repeat": 0, "calls": calls + more}
