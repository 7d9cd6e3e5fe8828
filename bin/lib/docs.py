"""Random documents and operations, and a small apply used only to steer generation."""
import copy, re

POOL_KEYS = ["a", "b", "c", "ab"]
ESC_KEYS = ["a", "b", "ab", "a/b", "m~n", "", "x.y", "0", "10", "~1", "\u00e9", " ", "a~0b", "~01", 'q"t', "<k>"]

WORD_KEYS = ["value", "Value", "timestamp", "_ts", "op", "path", "A", "a", "aA", "-", "from", "unit"]
MANY_KEYS = ["k%d" % i for i in range(16)] + ["a", "b", "zz"]

def pick_keys(r, prof, esc):
    """the keys of a script's documents"""
    c = r.random()
    if c < esc: prof["keys"] = ESC_KEYS
    elif c < esc + .1: prof["keys"] = WORD_KEYS
    elif c < esc + .14: prof["keys"] = MANY_KEYS; prof["big"] = True
    if r.random() < .05: prof["deep"] = r.randint(5, 12)
    if r.random() < .06: prof["far"] = True

def S(v, t): return {"k": "S", "v": v, "t": t}
def Nn(v, t): return {"k": "N", "v": v, "t": t}
def Bn(v, t): return {"k": "B", "v": v, "t": t}
def O(m): return {"k": "O", "m": m}
def A(e): return {"k": "A", "e": e}
Z = {"k": "Z"}
LEAF = ("S", "N", "B")

def esc(k): return k.replace("~", "~0").replace("/", "~1")
def pointer(tokens): return "".join("/" + esc(str(t)) for t in tokens)
def dotted(tokens): return ".".join(esc(str(t)) for t in tokens)

def rand_val(r, prof):
    """an operation value"""
    c = r.random()
    few = prof.get("few", False)
    if c < 0.5:
        v = r.choice(["1", "2", "3"] if few else ["0", "1", "2", "3", "-7", "2.5", "1e+21", "0.1", "123456789"] if r.random() < .9 else
                     ["3000000000", "-2147483649", "4294967296", "9007199254740993", "-9223372036854775808", "1e-07", "5e-324", "1.7976931348623157e+308",
                      "0.30000000000000004", "16777217", "65536", "1000000"])
        if "e" not in v and "." not in v and r.random() < 0.3:
            return {"k": "I", "v": v}
        return {"k": "N", "v": v}
    if c < 0.8:
        return {"k": "S", "v": r.choice(["x", "y"] if few else ["x", "y", "", "1", "true", "x y", "\u00fc", "/a", "null"] if r.random() < .9 else
                                      ['a"b\\c', "two\nlines", "<&>", "\U0001f600", "%d", "\u2028", "\u0000", "2026-01-01T00:00:00Z", "y" * 300, "~1", "-0"])}
    return {"k": "B", "v": r.choice(["true", "false"])}

def near(r, v):
    """a value that differs from v but is easily taken for it"""
    k, x = ("N" if v["k"] == "I" else v["k"]), v["v"]
    if k == "S":
        c = [{"k": "S", "v": x + " "}, {"k": "S", "v": x + "x"}, {"k": "S", "v": x.swapcase()}, {"k": "S", "v": " " + x}, {"k": "S", "v": x[:-1]}]
        if x in ("1", "0", "2"): c += [{"k": "N", "v": x}, {"k": "B", "v": "true"}]
        if x in ("true", "false"): c += [{"k": "B", "v": x}] * 2
        if x == "": c += [{"k": "N", "v": "0"}, {"k": "B", "v": "false"}]
    elif k == "N":
        c = [{"k": "S", "v": x}, {"k": "N", "v": "-" + x if x[0] != "-" and x != "0" else "3.0000000000000004"}]
        if x in ("1", "2", "3"): c += [{"k": "N", "v": {"1": "1.0000000000000002", "2": "2.000000000000001", "3": "2.9999999999999996"}[x]}, {"k": "N", "v": x + ".5"}]
        if x in ("0", "1"): c += [{"k": "B", "v": "true" if x == "1" else "false"}]
    else: c = [{"k": "S", "v": x}, {"k": "N", "v": "1" if x == "true" else "0"}, {"k": "B", "v": "false" if x == "true" else "true"}]
    c = [w for w in c if (w["k"], w["v"]) != (k, x)]
    return r.choice(c)

def rand_leaf(r, prof, t):
    v = rand_val(r, prof)
    return {"k": "N" if v["k"] == "I" else v["k"], "v": v["v"], "t": t}

def rand_doc(r, prof, ts, depth=3, root=True):
    keys = prof.get("keys", POOL_KEYS)
    if root and prof.get("deep"):        # a chain of objects and arrays
        d = rand_doc(r, {**prof, "deep": 0, "big": 0}, ts, 1, False)
        for _ in range(prof["deep"]):
            if r.random() < .7: d = O({**({r.choice(keys): rand_leaf(r, prof, ts())} if r.random() < .5 else {}), r.choice(keys): d})
            else: d = A([rand_leaf(r, prof, ts()) for _ in range(r.choice([0, 0, 1, 2]))] + [d])
        return O({r.choice(keys): d})
    c = r.random()
    if root:
        if c < 0.04 and prof.get("odd_roots"): return rand_leaf(r, prof, ts())
        if c < 0.06 and prof.get("odd_roots"): return Z
        kind = "A" if prof.get("array_root") or c > 0.93 and prof.get("odd_roots", False) else "O"
    else:
        if depth == 0 or c < 0.5:
            if r.random() < prof.get("nulls", 0.05): return Z
            return rand_leaf(r, prof, ts())
        kind = "O" if c < 0.75 else "A"
    n = r.randint(1 if root else 0, 3 if not prof.get("wide") else 5)
    if root and prof.get("big"): n = r.randint(8, 17)
    if kind == "O":
        ks = r.sample(keys, min(n, len(keys)))
        if root and prof.get("big") and r.random() < .2: ks += [f"m{i}" for i in range(r.choice([17, 33, 70]))]
        return O({k: rand_doc(r, prof, ts, depth - 1, False) for k in ks})
    if prof.get("longarr") and r.random() < 0.4: n = r.randint(9, 13) if r.random() < .8 else r.choice([17, 33, 70, 101])
    return A([rand_doc(r, prof, ts, 0 if n > 6 else depth - 1, False) for _ in range(n)])

def idx(tok):
    s = str(tok)
    return int(s) if re.fullmatch(r"[0-9]{1,6}", s) else -1

def apply(d, toks, op):
    """None if it does not apply"""
    d = copy.deepcopy(d)
    kind, val, ts = op["op"], op["val"], op["ts"]
    if kind not in ("add", "replace", "remove"): return None
    isset = kind != "remove"
    if isset and val["k"] not in ("S", "N", "I", "B"): return None
    leaf = {"k": "N" if val["k"] == "I" else val["k"], "v": val.get("v"), "t": ts} if isset else None
    if not toks: return leaf
    def up(d, toks):
        last = len(toks) == 1
        if d["k"] == "O":
            k = str(toks[0])
            if last:
                if isset: d["m"][k] = leaf
                else: d["m"].pop(k, None)
                return d
            c = d["m"].get(k, Z)
            if c["k"] == "Z":
                if not isset: return None
                c = A([]) if idx(toks[1]) >= 0 else O({})
            c = up(c, toks[1:])
            if c is None: return None
            d["m"][k] = c
            return d
        if d["k"] == "A":
            i = idx(toks[0])
            if i < 0: return None
            if i >= len(d["e"]):
                if not isset: return None
                d["e"] += [Z] * (i + 1 - len(d["e"]))
            if last:
                if isset: d["e"][i] = leaf
                else: d["e"].pop(i)
                return d
            c = up(copy.deepcopy(d["e"][i]), toks[1:])
            if c is None: return None
            d["e"][i] = c
            return d
        return None
    return up(d, toks)

def locations(d, pre=()):
    """all token lists below the root"""
    out = []
    if d["k"] == "O":
        for k, c in d["m"].items():
            out.append(pre + (k,)); out += locations(c, pre + (k,))
    elif d["k"] == "A":
        for i, c in enumerate(d["e"]):
            out.append(pre + (i,)); out += locations(c, pre + (i,))
    return out

def at(d, toks):
    for t in toks:
        if d["k"] == "O" and str(t) in d["m"]: d = d["m"][str(t)]
        elif d["k"] == "A" and 0 <= idx(t) < len(d["e"]): d = d["e"][idx(t)]
        else: return None
    return d

def leaves(d): return [l for l in locations(d) if at(d, l)["k"] in LEAF]

def rand_path(r, prof, d, recent):
    """a location to write or remove: a known one, beside one, or a new one"""
    c = r.random()
    keys = prof.get("keys", POOL_KEYS)
    if recent and c < prof.get("again", 0.5): return r.choice(recent)
    locs = locations(d)
    if locs and c < 0.85:
        lv = leaves(d)
        return r.choice(lv) if lv and r.random() < 0.75 else r.choice(locs)
    base = ()
    conts = [()] + [l for l in locs if at(d, l)["k"] in ("O", "A")]
    base = r.choice(conts)
    node = at(d, base)
    if node["k"] == "A": base = base + (r.randint(0, len(node["e"]) + 2) if not prof.get("far") or r.random() < .8 else len(node["e"]) + r.choice([8, 25, 70, 130]),)
    else: base = base + (r.choice(keys),)
    while r.random() < 0.25:
        base = base + ((r.randint(0, 2),) if r.random() < 0.3 else (r.choice(keys),))
    return base

def rand_op(r, prof, d, recent, ts, removes=0.2, kinds=None):
    toks = rand_path(r, prof, d, recent)
    c = r.random()
    if c < removes: op = {"op": "remove", "val": rand_val(r, prof) if c < removes * .06 else Z, "ts": ts}
    else:
        v = rand_val(r, prof)
        n = at(d, toks)
        if n is not None and n["k"] in LEAF and r.random() < prof.get("near", 0.15): v = near(r, n)
        op = {"op": "add" if c < removes + 0.3 else "replace", "val": v, "ts": ts}
    return toks, op
