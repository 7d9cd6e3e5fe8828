"""Random scripts for TSON text, JSON conversions, patch texts and lookups."""
import base64, json, random
from . import docs

STR_PARTS = ["a", "B", " ", "\"", "\\", "/", "'", "\n", "\t", "\r", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u00e9", "\u2028",
             "\u2029", "\ufeff", "\ufffd", "\uffff", "\U0001f697", "<", ">", "&", "<5>", "{", "}", "[", "]", ",", ":", "\\u0041", "\\n", "null", "true", "1", "~", "%d", "%", "\u0301", "\\u003c", "\\\\"]
NUMS = ["0", "1", "-1", "2.5", "-0.25", "0.1", "1e+21", "1e-7", "1e+300", "-1.5e-300", "5e-324", "1.7976931348623157e+308", "123456789", "9007199254740993",
        "100000000000000000000", "1e+20", "999999999999999900000", "0.000001", "0.0000015", "3.141592653589793", "-123456789.125", "4294967296", "1e+06", "2100000"]
BIGTS = [0, 1, 5, 42, 1700000000, 1700000000123456789, 9007199254740993, 9223372036854775807, 9223372036854775806, 4611686018427387905]
NEGTS = [-1, -2, -1, -1, -9223372036854775808, -77]
DEFTS = -1

def string(r, plain=False):
    if plain or r.random() < 0.3: return r.choice(["", "a", "ab", "x y", "1"])
    return "".join(r.choice(STR_PARTS) for _ in range(r.randint(1, 5)))

def canon(s):
    """as Go's FormatFloat(f, 'g', -1, 64) shows it; the driver parses it anyway"""
    return s

def leaf(r, ts, plain=False):
    c = r.random()
    if c < 0.4: return docs.S(string(r, plain), ts())
    if c < 0.8:
        v = r.choice(NUMS)
        if r.random() < 0.3: v = repr(r.choice([r.random() * 10 ** r.randint(-20, 25), -r.random(), r.randint(-10 ** 6, 10 ** 18) * 1.0, float(r.randint(0, 9999999))]))
        return docs.Nn(v, ts())
    return docs.Bn(r.choice(["true", "false"]), ts())

def key(r, plain=False):
    if r.random() < 0.5: return r.choice(docs.POOL_KEYS)
    if r.random() < 0.25: return r.choice(["value", "timestamp", "_ts", "op", "path", "0", "", "a/b", "m~n", "x.y"])
    return string(r, plain)

def doc(r, ts, depth, root=True, plain=False):
    c = r.random()
    if root:
        kind = "O" if c < 0.6 else "A" if c < 0.85 else "L" if c < 0.98 else "Z"
    elif depth <= 0: kind = "L" if c < 0.9 else "Z"
    else: kind = "L" if c < 0.45 else "O" if c < 0.7 else "A" if c < 0.92 else "Z"
    if kind == "L": return leaf(r, ts, plain)
    if kind == "Z": return docs.Z
    n = r.choice([0, 1, 1, 2, 3, 4])
    if kind == "O": return docs.O({key(r, plain): doc(r, ts, depth - 1, False, plain) for _ in range(n)})
    return docs.A([doc(r, ts, depth - 1, False, plain) for _ in range(n)])

def big(r, ts):
    """a document which is large in one respect: a long text or name, many members, deep nesting"""
    c = r.randrange(8)
    if c == 0: return docs.O({"k": docs.S(r.choice(["x", "ab", "\u00e9", "\\", "\"<5>"]) * r.choice([130, 260, 520, 1040]), ts())})
    if c == 1: return docs.O({"k" * r.choice([65, 129, 300, 1030]): leaf(r, ts, True), "b": leaf(r, ts, True)})
    if c == 2: return docs.A([leaf(r, ts, True) for _ in range(r.choice([33, 65, 130]))])
    if c == 3: return docs.O({"k%d" % i: leaf(r, ts, True) for i in range(r.choice([17, 33, 65, 130]))})
    if c == 6 and r.random() < .5: return docs.A([docs.S("xy<5>" * r.choice([9, 25]), ts()) for i in range(r.choice([33, 65]))])
    if c == 6: return docs.O({"k%d" % i: docs.S("xy<5>" * r.choice([9, 25]), ts()) for i in range(r.choice([33, 65]))})
    d = leaf(r, ts, True)
    if c == 7:
        for _ in range(r.randint(8, 14)): d = docs.O({r.choice(["a/b", "m~n", "a", "~1", "0", ""]): d})
        return docs.A([leaf(r, ts, True), d]) if r.random() < .3 else d
    arrays = r.choice([0, .1, .5])
    for i in range(r.choice([17, 33, 65, 101, 115])):
        d = docs.A([d]) if (c == 4 or r.random() < arrays) else docs.O({r.choice(["a", "b", "0"]): d})
    return d

def stamps(r):
    c = r.random()
    if c < 0.4: return lambda: r.choice(BIGTS)
    if c < 0.7: return lambda: r.choice(BIGTS + NEGTS)
    return lambda: r.choice([0, 1, 2, 3, -1])

# ---- TSON texts, correct and spoilt

def jstr(r, s):
    b = []
    for ch in s:
        c = r.random()
        if ch == '"': b.append('\\"')
        elif ch == "\\": b.append("\\\\")
        elif ord(ch) < 32 or ch == "\x7f":
            b.append({"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(ch) if c < .6 and ch in "\n\t\r\b\f" else "\\u%04x" % ord(ch))
        elif ch == "/" and c < 0.3: b.append("\\/")
        elif c < 0.12 and ord(ch) < 0x10000: b.append(("\\u%04x" if c < .06 else "\\u%04X") % ord(ch))
        else: b.append(ch)
    return '"' + "".join(b) + '"'

def write(r, d):
    """a list of lexemes of a TSON text for d (negative timestamps are left out or empty)"""
    def ts(t): return "<%d>" % t if t >= 0 else "<>"
    def prim(d):
        if d["k"] == "S": return jstr(r, d["v"])
        return d["v"]
    def val(d, where):
        k = d["k"]
        if k == "Z": return ["null"]
        if k == "O":
            out = ["{"]
            for i, (x, c) in enumerate(d["m"].items()):
                if i: out.append(",")
                out.append(jstr(r, x))
                if c["k"] in docs.LEAF:
                    e = r.random()
                    if c["t"] < 0 and e < 0.5: out += [":", prim(c)]
                    elif e < 0.75: out += [ts(c["t"]), ":", prim(c)]
                    else: out += [":", prim(c), ts(c["t"])]
                else:
                    if r.random() < 0.05: out.append(r.choice(["<5>", "<>"]))
                    out += [":"] + val(c, "o")
            return out + ["}"]
        if k == "A":
            out = ["["]
            for i, c in enumerate(d["e"]):
                if i: out.append(",")
                if c["k"] in docs.LEAF:
                    e = r.random()
                    if c["t"] < 0 and e < 0.5: out += [prim(c)]
                    elif e < 0.75: out += [ts(c["t"]), prim(c)]
                    else: out += [prim(c), ts(c["t"])]
                else: out += val(c, "a")
            return out + ["]"]
        if d["t"] < 0 and r.random() < 0.5: return [prim(d)]
        return [prim(d), ts(d["t"])]
    return val(d, "")

JUNK = ["{", "}", "[", "]", ",", ":", "<", ">", "<>", "<5>", "<-5>", "<+5>", "<5.5>", "<x>", "<5", "5>", "<9223372036854775807>", "<9223372036854775808>",
        "<99999999999999999999>", '"', '"a', '"a"', "1", "-", "--1", "1e", "1e+", "1.2.3", "01", "1.", ".5", "+1", "1e5", "0x1", "1_0", "Infinity", "NaN",
        "tru", "true", "False", "nul", "null", "nulll", "\\", "//", "#", ";", "\x00", "\ufeff", "'a'", '"\\q"', '"\\u12"', '"\\u12g4"', '"\\', '"\\u0041"', "e", "E5", "<<5>>", "<5><6>"]
SPACE = ["", "", "", " ", "  ", "\n", "\t", "\r\n", " \n "]

def spoil(r, lex):
    lex = list(lex)
    for _ in range(r.choice([1, 1, 1, 2])):
        c = r.random()
        i = r.randrange(len(lex)) if lex else 0
        if c < 0.3 and lex: del lex[i]
        elif c < 0.6: lex.insert(r.randint(0, len(lex)), r.choice(JUNK))
        elif c < 0.75 and lex: lex[i] = r.choice(JUNK)
        elif c < 0.82 and len(lex) > 1:
            j = r.randrange(len(lex)); lex[i], lex[j] = lex[j], lex[i]
        elif c < 0.88 and lex: lex.insert(i, lex[i])
        elif c < 0.94 and lex: lex = lex[:i]
        elif lex and len(lex[i]) > 1:
            j = r.randrange(len(lex[i])); lex[i] = lex[i][:j] + lex[i][j + 1:]
    return lex

def join(r, lex, spaced):
    if not spaced: return "".join(lex)
    return r.choice(SPACE) + "".join(x + r.choice(SPACE) for x in lex)

def parse_call(r):
    pos = lambda: r.choice(BIGTS + [-1])
    d = big(r, pos) if r.random() < 0.004 else doc(r, pos, r.choice([0, 1, 1, 2, 3]), True, r.random() < 0.5)
    lex = write(r, d)
    c = r.random()
    if c < 0.4: return {"c": "parse", "s": join(r, lex, r.random() < 0.7)}
    if c < 0.85: return {"c": "parse", "s": join(r, spoil(r, lex), r.random() < 0.5)}
    if c < 0.95: return {"c": "parse", "s": join(r, [r.choice(JUNK) for _ in range(r.randint(0, 6))], r.random() < 0.3)}
    if c < 0.98:
        b = bytearray(join(r, lex, False).encode("utf8", "surrogatepass"))
        for _ in range(r.randint(1, 3)):
            if b: b[r.randrange(len(b))] = r.randrange(256)
        return {"c": "parse", "s": "", "b64": base64.b64encode(bytes(b)).decode()}
    n = r.randint(10, 60)
    return {"c": "parse", "s": "[" * n + r.choice(["", "1", "{", "]" * n, "1" + "]" * n, "1 <7>" + "]" * (n - 1)])}

VALS = lambda r: r.choice([{"k": "S", "v": string(r)}, {"k": "N", "v": r.choice(NUMS)}, {"k": "B", "v": r.choice(["true", "false"])},
                           {"k": "I", "v": str(r.choice([0, 1, -1, 7, 2147483648, 9007199254740992]))}, docs.Z])

def ptext_call(r, form):
    ts = stamps(r)
    ops = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        toks = [key(r) for _ in range(r.randint(0, 3))]
        ops.append({"op": r.choice(["add", "replace", "remove", "remove", "move", "copy", "test"]),
                    "path": r.choice([docs.pointer(toks), docs.dotted(toks), string(r), ""]), "val": VALS(r), "ts": ts()})
    return {"c": "ptext", "form": form, "p": ops}

def changed(r, d, ts):
    from . import gen_patch
    return gen_patch.mutate(r, {"nulls": 0.2}, d, ts, True)

def lookup_path(r, d):
    locs = docs.locations(d)
    c = r.random()
    if len(locs) > 6 and c > .9: t = locs[-1]       # far down
    elif c < 0.1: t = ()
    elif locs and c < 0.7: t = r.choice(locs)
    else: t = (r.choice(locs) if locs and r.random() < 0.7 else ()) + (r.choice(["a", "-1", "0", 0, 1, 9, "", "zz", "-", "1x", "value"]),)
    if r.random() < 0.7 or (t and str(t[0]) == "") or any("." in str(x) for x in t): return docs.pointer(t)
    return docs.dotted(t)

def call(r, focus):
    if focus == "C17": return ptext_call(r, r.choice(["json", "string", "indent", "fromjson", "opstring", "opmarshal", "opjson", "joined"]))
    if focus == "C19": return parse_call(r)
    ts = stamps(r)
    d = big(r, ts) if r.random() < (0.012 if focus == "C21" else 0.006) else doc(r, ts, r.choice([0, 1, 2, 3]))
    if focus == "C18":
        if r.random() < 0.5: return {"c": "round", "form": "marshal", "d": d}
        return {"c": "round", "form": r.choice(["indent", "indent", "object"]), "d": d, "prefix": r.choice(["", "", "  ", "\t"]), "indent": r.choice(["", " ", "    ", "\t"])}
    if focus == "C20":
        if r.random() < 0.06: return {"c": "list", "d": docs.A([leaf(r, ts) for _ in range(r.choice([0, 1, 2, 5]))]) if r.random() < .7 else d}
        if r.random() < 0.5: return {"c": "stamped", "form": r.choice(["bytes", "sorted", "string", "object"]), "d": d}
        return {"c": "plain", "form": r.choice(["bytes", "any"]), "d": d}
    c = r.random()
    if c < 0.5: return {"c": "get", "d": d, "path": lookup_path(r, d)}
    if c < 0.85:
        e = r.random()
        b = d if e < 0.2 else changed(r, d, ts) if e < 0.8 else doc(r, ts, 2)
        if e > 0.6 and e < 0.7:
            from copy import deepcopy
            b = deepcopy(d)
            for l in docs.leaves(b): docs.at(b, l)["t"] = ts()
        return {"c": "eq", "d": d, "d2": b}
    return {"c": "latest", "d": d}

def scripts(n, seed, focus):
    out = []
    for i in range(n):
        r = random.Random(f"{seed}/{focus}/{i}")
        out.append({"sid": i + 1, "calls": [call(r, focus) for _ in range(10)]})
    return out

# ---- cases of the model MCText

def number(t):
    return t[0] * int("".join(map(str, t[1:])))

def fix(n):
    """the model's document as the driver takes it: times as numbers, {} for the empty object"""
    if n["k"] == "O": return {"k": "O", "m": {k: fix(c) for k, c in n["m"].items()} if n["m"] else {}}
    if n["k"] == "A": return {"k": "A", "e": [fix(c) for c in n["e"]]}
    if n["k"] == "Z": return docs.Z
    return dict(n, t=number(n["t"]))

PTEXT = ["json", "string", "indent", "fromjson", "opstring", "opmarshal", "opjson", "joined"]

def from_model(cases, what, focus, seed, first):
    """scripts of 40 calls"""
    r = random.Random(seed)
    calls = []
    for c in cases:
        if what == "texts": calls.append({"c": "parse", "s": "".join(c)})
        elif what == "patch":
            ops = [dict(o, ts=number(o["ts"])) for o in c]
            calls += [{"c": "ptext", "form": f, "p": ops} for f in (PTEXT if len(ops) == 1 else r.sample(PTEXT, 2))]
        elif what == "docs" and focus == "C18":
            d = fix(c)
            calls += [{"c": "round", "form": "marshal", "d": d},
                      {"c": "round", "form": "indent", "d": d, "prefix": r.choice(["", "  ", "\t"]), "indent": r.choice(["", " ", "\t"])},
                      {"c": "round", "form": "object", "d": d, "prefix": "", "indent": r.choice(["", " ", "\t"])}]
        elif what == "docs" and focus == "C20":
            d = fix(c)
            calls += [{"c": "stamped", "form": f, "d": d} for f in ("bytes", "sorted", "string", "object")]
            if d["k"] == "A": calls.append({"c": "list", "d": d})
            calls += [{"c": "plain", "form": f, "d": d} for f in ("bytes", "any")]
        elif what == "docs":
            d = fix(c)
            calls.append({"c": "latest", "d": d})
            for l in docs.locations(d) + [()]:
                for t in {tuple(l), tuple(l) + ("a",), tuple(l) + (0,), tuple(l) + (1,), tuple(l) + (-1,)}:
                    calls.append({"c": "get", "d": d, "path": docs.pointer(t) if r.random() < .7 else docs.dotted(t)})
        else: calls.append({"c": "eq", "d": fix(c["a"]), "d2": fix(c["b"])})
    return [{"sid": first + i, "calls": calls[i:i + 40]} for i in range(0, len(calls), 40)]
