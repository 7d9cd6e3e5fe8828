"""Scripts of generated datasets, and requests to the web demo that serves them."""
import json, os, random
from . import common

TYPES = ["boolean", "int8", "int16", "int32", "uint8", "uint16", "uint32", "float", "double", "string", "string[]", "float[]", "uint8[]",
         "percent", "allowed", "allowed[]", "int64", "string[2]"]

def leaf(ty, r):
    """-> (the signal as the schema file has it, as the specification has it)"""
    d = {"datatype": ty, "type": r.choice(["sensor", "actuator", "attribute"]), "description": "a signal"}
    if ty == "percent": d.update(datatype="float", unit="percent", min=0, max=100)
    elif ty == "allowed": d.update(datatype="string", allowed=r.sample(["ON", "OFF", "x y", "\u00fc", "a\"b", "UNKNOWN"], r.randint(1, 4)))
    elif ty == "allowed[]": d.update(datatype="string[]", allowed=r.sample(["LEFT", "RIGHT", "P", "D"], r.randint(1, 3)))
    else:
        if r.random() < 0.3: d["unit"] = r.choice(["km/h", "percent"] if ty not in ("float",) else ["km/h", "m"])
        if r.random() < 0.2: d["min"] = -5
        if r.random() < 0.2: d["max"] = 250
        if r.random() < 0.1: d["default"] = 0
        if r.random() < 0.2: d["comment"] = "some text"
        if r.random() < 0.1: d["deprecation"] = "v3"
    return d, spec(d)

def asc(s):
    """as the driver shows text"""
    def one(ch):
        n = ord(ch)
        if ch == "\\" or n < 0x20 or n == 0x7f or 0x80 <= n <= 0xffff: return "\\u%04x" % n
        return "\\U%08x" % n if n > 0xffff else ch
    return "".join(map(one, s))

def spec(d):
    return {"dt": d["datatype"], "percent": d["datatype"] == "float" and d.get("unit") == "percent", "allowed": [asc(x) for x in d.get("allowed", [])]}

def branch(r): return {"type": "branch", "description": "a branch", "children": {}}

def schema(sigs, r):
    """sigs: name -> type; -> (schema file content, table)"""
    root, table = {}, {}
    for name, ty in sigs.items():
        d, t = leaf(ty, r)
        table[asc(name)] = t
        parts, at = name.split("."), root
        for p in parts[:-1]: at = at.setdefault(p, branch(r))["children"]
        at[parts[-1]] = d
    return root, table

def repo_table():
    table = {}
    def walk(at, n):
        if "children" in n:
            for k, c in n["children"].items(): walk(at + "." + k, c)
        else: table[at] = spec(n)
    for k, c in json.load(open(os.path.join(common.REPO, "internal/vssgen/vss.json"))).items(): walk(k, c)
    return table

def names(r, n):
    pool = ["Vehicle", "Body", "Door", "Row1", "Left", "Speed", "IsOpen", "X", "children1", "value1", "Cabin", "HVAC", "State"]
    if r.random() < .15: pool += ["\u00fcber", "two words", 'q"t', "<k>", "back\\slash", "a-b", "7", "0"]
    out = set()
    for _ in range(n * 4):
        if len(out) == n: break
        x = ".".join(r.choice(pool) + (str(r.randint(0, 3)) if r.random() < .3 else "") for _ in range(r.choice([1, 2, 2, 3, 3, 4]) if r.random() < .97 else 9))
        if not any(x == y or x.startswith(y + ".") or y.startswith(x + ".") for y in out): out.add(x)
    return sorted(out)

def requests(r, cars, files, n):
    out = []
    for _ in range(n):
        c = r.random()
        car, k = r.randint(1, cars), r.randint(1, files)
        if c < 0.5: out.append({"c": "view", "car": car, "k": k})
        elif c < 0.6: out.append({"c": "view", "car": car, "k": files})
        elif c < 0.75: out.append({"c": "first", "car": car})
        elif c < 0.9: out.append({"c": "patch", "car": car, "k": k})
        elif c < 0.93: out.append({"c": "home"})
        else: out.append({"c": "bad", "url": r.choice([f"/patch?car={cars + 5}&patch=2", "/patch", "/update", "/update?car=x", f"/patch?car={car}&patch={files + 3}"])})
    return out

SHARE = {"zero": 0.0, "one": 1.0, "mid": 0.5, "absent": -1.0}

def from_model(cases, seed, web):
    out = []
    for i, c in enumerate(cases):
        r = random.Random(f"{seed}/{i}")
        ns = names(r, len(c["types"]))
        if len(ns) < len(c["types"]): continue
        vss, table = schema(dict(zip(ns, c["types"])), r)
        o = c["opt"]
        s = {"sid": 400000 + i, "vss": vss, "schema": table, "cars": 1, "files": 3, "size": SHARE[o["size"]], "change": SHARE[o["change"]],
             "maintain": SHARE[o["maintain"]] if o["maintain"] != "mid" else 0.3, "leaves": 0 if web else 2}
        if web: s["reqs"] = requests(r, 1, 3, 8) + [{"c": "view", "car": 1, "k": k} for k in (1, 2, 3)]
        out.append(s)
    return out

def argv(r):
    """a command line, and what it says"""
    opts = {"cars": r.choice([0, 1, 3, 12, 1000]), "files": r.choice([0, 1, 2, 10, 999])}
    if r.random() < .5: opts["dataset"] = r.choice(["vss.json", "a b.json", "/x/y=z.json", "", "./-d", "\u00fc.json"])
    if r.random() < .5: opts["change_rate"] = r.choice([0, 1, 0.2, 0.25, 0.9, 1e-3])
    if r.random() < .5: opts["size"] = r.choice([0, 1, 0.1, 0.75, 0.5])
    ks, out = list(opts), []
    r.shuffle(ks)
    for k in ks:
        d = r.choice(["-", "--"])
        if r.random() < .5: out.append(f"{d}{k}={opts[k]}")
        else: out += [d + k, str(opts[k])]
    return {"argv": out, "given": opts}

def script(sid, seed, web):
    r = random.Random(seed)
    vss, table = schema({n: r.choice(TYPES) for n in names(r, r.choice([1, 2, 4, 8, 15]) if r.random() < .97 else 60)}, r)
    change = r.choice([0, 0, 1, 0.2, 0.5, 0.9])
    maintain = r.choice([-1, 0, 0, 1, 0.3]) if change < 1 else r.choice([-1, 0])
    s = {"sid": sid, "vss": vss, "schema": table, "cars": r.choice([1, 1, 2, 3]) if r.random() < .95 else 11, "files": r.choice([1, 2, 3, 5, 8, 12]) if r.random() < .96 else 33,
         "size": r.choice([0, 1, 1, 1, 0.5, 0.8]), "change": change, "maintain": maintain, "leaves": 0 if web else r.choice([0, 1, 3])}
    if not web: s.update(argv(r))
    if web:
        s["reqs"] = requests(r, s["cars"], s["files"], r.choice([5, 12, 25]))
        s["parallel"] = r.random() < 0.5
    return s

def whole(sid, seed, files, web):
    """the repository's own schema"""
    r = random.Random(seed)
    s = {"sid": sid, "schema": repo_table(), "cars": 1, "files": files, "size": r.choice([1, 0.4]), "change": r.choice([0.2, 1, 0]),
         "maintain": r.choice([-1, 0.3]), "leaves": 0 if web else 2}
    if web: s.update(reqs=requests(r, 1, files, 4), size=0.2)
    return s

def demo(sid, seed):
    """the dataset which the demo generates when it starts"""
    r = random.Random(seed)
    return {"sid": sid, "schema": repo_table(), "cars": 5, "files": 10, "size": 0.1, "change": 0.2, "maintain": -1, "demo": True,
            "reqs": requests(r, 5, 10, 40) + [{"c": "home"}], "parallel": True}

def scripts(n, seed, focus):
    web = focus == "C23"
    out = [script(i + 1, f"{seed}/{focus}/{i}", web) for i in range(n)]
    for i in range(max(1, n // 150)): out.append(whole(900000 + i, f"{seed}/{focus}/w{i}", 2 if i else 3, web))
    return out
