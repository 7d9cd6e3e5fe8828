"""Scripts for the page of the web demo: what the user does, in which order the server answers, and the texts it answers with."""
import json, random

CARS, PATCHES = [str(c) for c in range(1, 6)], [str(p) for p in range(2, 10)]
STR = ["x", "", "a<b", "a&b", "&amp;", "&lt;i&gt;", "<b>bold</b>", "</script>", "<!-- c -->", 'say \\"hi\\"', "back\\\\slash", "tab\\t", "n\\nl", "1 2 3", "true", "null", "-7.5e3",
       "a: b", "ü 日本 😀", "\\u00e9", "\\u003cx\\u003e", "it's", "`q`", "${x}", "{ } [ ] ,", "http://a/b?c=d&e=f", '\\"', '\\\\\\"']

def string(r): return '"' + "".join(r.choice(STR) for _ in range(r.choice([1, 1, 2, 3]))) + '"'

def number(r):
    return r.choice([lambda: str(r.randint(-20, 200)), lambda: f"{r.randint(0, 300)}.{r.randint(1, 9999)}".rstrip("0").rstrip("."), lambda: str(r.randint(10**17, 9 * 10**18)), lambda: "1e+21", lambda: "2.5e-7"])()

def value(r, depth=1):
    k = r.random()
    if k < 0.35: return number(r)
    if k < 0.6: return string(r)
    if k < 0.75: return r.choice(["true", "false", "null"])
    if depth <= 0: return string(r)
    xs = [value(r, depth - 1) for _ in range(r.randint(0, 2))]
    return "[" + ", ".join(xs) + "]" if k < 0.88 else "{" + ", ".join(f"{string(r)}: {x}" for x in xs) + "}"

def document(r, mark):
    """TSON as the server sends it"""
    ind = r.choice(["  ", "    "])
    rows = [f'"{mark}" <{r.randint(10**17, 9 * 10**18)}>: {value(r)}'] + [f"{string(r)} <{r.choice([str(r.randint(0, 99)), str(r.randint(10**17, 9 * 10**18))])}>: {value(r)}" for _ in range(r.randint(0, 3))]
    if r.random() < 0.2: rows.append(f'{string(r)}: [\n{ind * 2}<{r.randint(0, 10**18)}> {number(r)}\n{ind}]')
    r.shuffle(rows)
    return "{\n" + ",\n".join(ind + x for x in rows) + "\n}" + r.choice(["", "", "\n"])

def patch(r, mark):
    rows = [f'"/{mark}"'] + [string(r) for _ in range(r.randint(0, 2))]
    r.shuffle(rows)
    return "[\n" + ",\n".join('    { "op": "replace", "path": %s, "value": %s, "timestamp": %s }' % (p, value(r), r.randint(10**17, 9 * 10**18)) for p in rows) + "\n]"

def texts(r):
    out = {}
    for c in CARS:
        out[f"doc:{c}"] = document(r, f"d{c}")
        for p in PATCHES:
            out[f"patch:{c}:{p}"] = patch(r, f"p{c}x{p}")
            out[f"applied:{c}:{p}"] = document(r, f"a{c}x{p}")
    return out

def one(r, sid):
    cars, patches = r.sample(CARS, r.choice([1, 2, 2, 3, 5])), r.sample(PATCHES, r.choice([1, 2, 2, 3, 8]))
    patience = r.choice([0.2, 0.4, 0.7, 0.95])      # how often the server answers before the user goes on
    order = r.choice(["first", "last", "any", "any"])
    fails = r.choice([0, 0, 0.1, 0.3])
    ev = [{"c": "load"}]
    pick = lambda: {"first": 0, "last": 7559, "any": r.randint(0, 5)}[order]
    if r.random() < 0.7: ev.append({"c": "settle", "i": pick()})
    for _ in range(r.randint(4, 40)):
        k = r.random()
        if k < patience * 0.6: ev.append({"c": "fail" if r.random() < fails else "answer", "i": pick()})
        elif k < 0.63: ev.append({"c": "settle", "i": pick()})
        elif k < 0.73: ev.append({"c": "car", "v": r.choice(cars)})
        elif k < 0.82: ev.append({"c": "patch", "v": r.choice(patches)})
        elif k < 0.95: ev.append({"c": "press"})
        else: ev.append({"c": "show", "i": r.randint(0, 5)})
    ev.append({"c": "settle", "i": pick()})
    return {"sid": sid, "texts": texts(r), "ev": ev}

def scripts(n, seed, focus):
    r = random.Random(f"{seed}/page")
    return [one(r, i) for i in range(1, n + 1)]

def from_model(cases, seed):
    r = random.Random(f"{seed}/page/model")
    pool = [texts(r) for _ in range(20)]
    out = []
    for i, c in enumerate(cases):
        ev = [dict(e, i=e["i"] - 1) if "i" in e else {"c": "show", "i": 0} if e["c"] == "show" else e for e in c["ev"]]
        out.append({"sid": 500000 + i, "texts": pool[i % len(pool)], "ev": [{"c": "load"}] + ev + [{"c": "settle", "i": 0}]})
    return out
