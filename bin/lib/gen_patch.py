"""Random call scripts for patches."""
import copy, random
from . import docs

TSMAPS = [{"base": 0, "mult": 1}, {"base": 1700000000000000000, "mult": 1}, {"base": 9007199254740992, "mult": 1}]

def mutate(r, prof, d, ts, harsh):
    """a changed copy of d"""
    d = copy.deepcopy(d)
    k = d["k"]
    if k in docs.LEAF:
        c = r.random()
        if c < 0.3: return dict(d, t=ts())
        if c < 0.6: return dict(docs.near(r, d), t=r.choice([d["t"], ts()]))
        if c < 0.9: return docs.rand_leaf(r, prof, r.choice([d["t"], ts()]))
        if harsh: return r.choice([docs.Z, docs.O({}), docs.A([]), docs.rand_doc(r, prof, ts, 1, False)])
        return docs.rand_leaf(r, prof, ts())
    if k == "Z":
        return docs.rand_leaf(r, prof, ts()) if r.random() < 0.6 else d
    c = r.random()
    if k == "O":
        ks = list(d["m"])
        if ks and c < 0.65:
            x = r.choice(ks); d["m"][x] = mutate(r, prof, d["m"][x], ts, harsh)
        elif ks and c < 0.75: del d["m"][r.choice(ks)]
        elif c < 0.92: d["m"][r.choice(prof.get("keys", docs.POOL_KEYS))] = docs.rand_leaf(r, prof, ts())
        elif harsh: d["m"][r.choice(prof.get("keys", docs.POOL_KEYS))] = docs.rand_doc(r, prof, ts, 1, False)
        elif ks: d["m"][r.choice(ks)] = docs.rand_leaf(r, prof, ts())
        return d
    e = d["e"]
    if e and c < 0.45:
        i = r.randrange(len(e)); e[i] = mutate(r, prof, e[i], ts, harsh)
    elif e and c < 0.65: del e[r.randrange(len(e))]
    elif len(e) > 1 and c < 0.7:     # drop several elements
        for _ in range(r.randint(1, len(e))):
            if e: del e[r.randrange(len(e))]
    elif c < 0.8: e.append(docs.rand_leaf(r, prof, ts()))
    elif c < 0.88: e.insert(r.randint(0, len(e)), docs.rand_leaf(r, prof, ts()))
    elif c < 0.92: r.shuffle(e)
    elif e and c < 0.96: del e[r.randrange(len(e)):]
    else: d = docs.rand_leaf(r, prof, ts()) if r.random() < 0.5 else d
    return d

def twin(r, prof, a, ts, harsh):
    b = a
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])): b = mutate(r, prof, b, ts, harsh)
    if r.random() < 0.1:        # only the times differ
        b = copy.deepcopy(a)
        for l in docs.leaves(b):
            if r.random() < 0.6: docs.at(b, l)["t"] = ts()
    return b

def script(sid, seed, focus):
    r = random.Random(seed)
    prof = {"few": r.random() < 0.5, "again": r.choice([0, 0.2]), "nulls": r.choice([0, 0.1, 0.2]), "wide": r.random() < 0.3,
            "longarr": r.random() < 0.15, "odd_roots": r.random() < 0.25}
    docs.pick_keys(r, prof, .5)
    ptr = r.random() < 0.75
    def text(toks):
        if ptr or any("." in str(t) for t in toks) or (toks and str(toks[0]) == ""): return docs.pointer(toks)
        return docs.dotted(toks)
    ts = (lambda: r.choice([0, 1, 2, 3, 5, -1])) if r.random() < 0.7 else (lambda: r.choice([0, 1, -1, 1000000, -1000000, -7]))
    a = docs.rand_doc(r, prof, ts, depth=r.choice([1, 2, 2, 3, 4]))
    calls = [{"c": "doc", "d": a}]
    if focus in ("C15", "C16"):
        n = r.randint(2, 4)
        ds = [a]
        for _ in range(n):
            c = r.random()
            b = twin(r, prof, r.choice(ds), ts, r.random() < 0.25) if c < 0.85 else docs.rand_doc(r, prof, ts, depth=r.choice([1, 2, 3]))
            ds.append(b); calls.append({"c": "doc", "d": b})
        for _ in range(r.randint(4, 7)):
            i, j = r.randint(1, len(ds)), r.randint(1, len(ds))
            k = {"C15": "diff", "C16": "difft"}[focus] if r.random() < 0.85 else r.choice(["diff", "difft"])
            calls.append({"c": k, "i": i, "j": j})
            if r.random() < 0.3: calls.append({"c": "follow", "i": i})
        return {"sid": sid, "tsmap": r.choice(TSMAPS), "calls": calls}
    ds = [a]
    if r.random() < 0.3:
        b = docs.rand_doc(r, prof, ts, depth=2); ds.append(b); calls.append({"c": "doc", "d": b})
    recent = []
    def one(d, bad):
        toks, op = docs.rand_op(r, prof, d, recent, ts(), r.choice([0.15, 0.35]))
        if r.random() < 0.02: toks = ()
        if bad:
            c = r.random()
            if c < 0.25: op["op"] = r.choice(["test", "move", "copy", "bogus", "", "Add"])
            elif c < 0.45: op.update(op=r.choice(["add", "replace"]), val=r.choice([docs.Z, {"k": "X", "v": "q"}, {"k": "L", "v": "q"}]))
            elif c < 0.75:     # through a leaf, through null, wrong index, past the end
                locs = docs.locations(d) or [()]
                toks = r.choice(locs) + (r.choice(["a", "-", "-1", "x", 0, 7, "1a", "", " 1"]),)
                if r.random() < 0.4: toks += (r.choice(["b", 0, "-1"]),)
            elif c < 0.9: toks, op = toks + (r.choice(["a", 0, 3]),), dict(op, op="remove", val=docs.Z)
            else: toks, op = (), dict(op, op="remove", val=docs.Z)
        recent.append(tuple(toks)); del recent[:-3]
        return toks, dict(op, path=text(toks))
    for _ in range(r.randint(6, 12)):
        i = r.randrange(len(ds)) if r.random() < 0.4 else len(ds) - 1
        if focus == "C13" or r.random() < 0.3:
            toks, op = one(ds[i], r.random() < 0.12)
            d = docs.apply(ds[i], toks, op)
            if d is None and focus == "C13" and r.random() < 0.6: continue
            calls.append({"c": "apply1", "i": i + 1, "o": op})
        else:
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 6, 6, r.choice([10, 20, 45, 45, 140 if r.random() < .3 else 45])]); ops = []; d = ds[i]; poison = r.randrange(n) if n and r.random() < 0.35 else -1
            for x in range(n):
                for _ in range(5):
                    toks, op = one(d if d is not None else ds[i], x == poison)
                    e = docs.apply(d, toks, op) if d is not None else None
                    if x == poison or e is not None or d is None: break
                d = e; ops.append(op)
            calls.append({"c": "apply", "i": i + 1, "p": ops})
        # the driver's list grows when the call is expected to succeed
        if d is not None: ds.append(d)
    return {"sid": sid, "tsmap": r.choice(TSMAPS), "calls": calls}

def scripts(n, seed, focus):
    return [script(i + 1, f"{seed}/{focus}/{i}", focus) for i in range(n)]

# ---- cases of the model MCPatch

def fix(n):
    """TLC writes the empty function as []"""
    if n["k"] == "O": return {"k": "O", "m": {k: fix(c) for k, c in n["m"].items()} if n["m"] else {}}
    if n["k"] == "A": return {"k": "A", "e": [fix(c) for c in n["e"]]}
    return n

def from_model(cases, what, kinds, seed):
    """one script per document a (and at most 60 cases)"""
    r = random.Random(seed)
    by = {}
    for c in cases: by.setdefault(common_key(c["a"]), []).append(c)
    out, sid = [], 200000
    for k, cs in by.items():
        r.shuffle(cs)
        for i in range(0, len(cs), 60):
            calls = [{"c": "doc", "d": fix(cs[0]["a"])}]
            docs_n = 1
            for c in cs[i:i + 60]:
                if what == "apply":
                    o = c["op"]; toks = [t["s"] for t in o["tk"]]
                    path = docs.pointer(toks) if r.random() < 0.7 else docs.dotted(toks)
                    op = {"op": o["op"], "path": path, "val": o["val"], "ts": o["ts"]}
                    calls.append({"c": "apply1", "i": 1, "o": op} if "apply1" in kinds and ("apply" not in kinds or r.random() < .5)
                                 else {"c": "apply", "i": 1, "p": [op]})
                else:
                    calls.append({"c": "doc", "d": fix(c["b"])}); docs_n += 1
                    for k2 in kinds: calls.append({"c": k2, "i": 1, "j": docs_n})
            out.append({"sid": sid, "tsmap": TSMAPS[0], "calls": calls}); sid += 1
    return out

def common_key(a): return repr(a)
