"""C22: JSON texts parse to the values they denote and dumped values parse back."""
import sys, os, json, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit, IMIN, IMAX

CHARS = "ab\"\\/\x08\x0c\n\r\t\x00\x01\x1f\x7f\x80\xe9\u0142\u2028\ud7ff\ue000\uffff\U00010000\U0001f600\U0010ffff(){}[]:,#'x u0041$-"
def rstr(rng):
    n = rng.choice((0, 1, 2, 3, 5, 8, 15, 40))
    return "".join(rng.choice(CHARS) for _ in range(n))
def rnum(rng):
    k = rng.randrange(6)
    if k == 0: return rng.choice((0, 1, -1, 10, IMAX, IMIN, IMAX - 1, IMIN + 1, 255, -256))
    if k == 1: return rng.randrange(-(1 << rng.randrange(1, 63)), 1 << rng.randrange(1, 63))
    if k == 2: return rng.randrange(-1000, 1000) / 8
    if k == 3: return float(rng.randrange(-10**6, 10**6)) / 1000
    if k == 4: return rng.choice((0.5, -0.25, 1.0, -1.0, 100.0, 1e10, -0.0))
    return rng.randrange(100)
def rval(rng, depth):
    k = rng.random()
    if depth <= 0 or k < 0.5:
        j = rng.randrange(5)
        return None if j == 0 else rng.random() < 0.5 if j == 1 else rnum(rng) if j < 4 else rstr(rng)
    n = rng.choice((0, 1, 2, 3, 5))
    if k < 0.75: return [rval(rng, depth - 1) for _ in range(n)]
    return {rstr(rng): rval(rng, depth - 1) for _ in range(n)}

def spell_str(s, rng):
    out = []
    for ch in s:
        c = ord(ch)
        k = rng.random()
        short = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 34: '"', 92: "\\", 47: "/"}.get(c)
        def u(x):
            h = "%04x" % x
            return "\\u" + "".join(rng.choice((d, d.upper())) for d in h)
        if short and (k < 0.6 or c != 47 and k < 0.8): out.append("\\" + short)
        elif c < 32 or c in (34, 92) or k < 0.15:
            out.append(u(c) if c < 0x10000 else u(0xd800 + (c - 0x10000 >> 10)) + u(0xdc00 + (c & 0x3ff)))
        else: out.append(ch)
    return '"' + "".join(out) + '"'
def spell_num(v, rng):
    if isinstance(v, int): return str(v)
    t = rng.choice((repr(v), "%.17g" % v, "%e" % v if float("%e" % v) == v else repr(v)))
    if "e" not in t and "." not in t: t += ".0"
    if "e" in t and rng.random() < 0.3: t = t.upper()
    return t
def ws(rng): return "".join(rng.choice(" \n\r ") for _ in range(rng.choice((0, 0, 0, 1, 2))))
def spell(v, rng):
    w = lambda: ws(rng)
    if v is None: return "null"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, str): return spell_str(v, rng)
    if isinstance(v, (int, float)): return spell_num(v, rng)
    if isinstance(v, list): return "[" + w() + ("," ).join(w() + spell(x, rng) + w() for x in v) + "]"
    return "{" + w() + ",".join(w() + spell_str(k, rng) + w() + ":" + w() + spell(x, rng) + w() for k, x in v.items()) + "}"

BAD = ["", " ", "[", "]", "{", "}", "[1", "[1,", "[1,[2", "[[]", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{\"a\" 1}", "{1:2}", "{a:1}", "{null:1}", "[1 2]", "[1:2]", "[}", "{]", "[1}", "1 2", "1]", "{}{}", "[]]", "-", "--1", "- 1", "+1", "tru", "nul", "void", "True", "NaN", "Infinity", "\"", "\"a", "\"\\\"", "\"\\q\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\ug\"", "\"\\x41\"", "'a'", "a", "@", "[\"a\" \"b\"]", "\"a\" \"b\"", "1,", ",1", ":", "-\"a\"", "-true", "-[1]", "[-]", "{\"a\":-}", "9223372036854775808", "-9223372036854775809", "1e400", "\"a\nb\"", "\\", "[1,2,3", "{\"a\":[1,2}", "[{\"a\":1]"]

def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None: return a is b
    if isinstance(a, float) or isinstance(b, float): return type(a) == type(b) and (a == b and math.copysign(1, a) == math.copysign(1, b) or abs(a - b) <= 1e-14 * abs(a))
    if type(a) != type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b

def kval(v):
    """The value as Kos source"""
    if isinstance(v, dict): return "{" + ", ".join("%s: %s" % (klit(k), kval(x)) for k, x in v.items()) + "}"
    if isinstance(v, list): return "[" + ", ".join(map(kval, v)) + "]"
    return klit(v)

def check(c):
    b = vlib.build("asan")
    rng = c.subrng("json")
    cases = []
    for i in range(c.n(1500, 40000)):
        v = rval(rng, rng.choice((0, 1, 2, 3, 4)))
        t = ws(rng) + spell(v, rng) + ws(rng)
        if len(t) > 20000: continue
        k = rng.randrange(4)
        if k == 0: cases.append(("return json.parse(buffer(%s))" % klit(t), v))
        elif k == 1 and isinstance(v, list): cases.append(("return [json.parse_array(%s)...]" % klit(t), v))
        else: cases.append(("return json.parse(%s)" % klit(t), v))
        c.stat("texts parsed")
        # a prefix of an array or object is never accepted
        if isinstance(v, (list, dict)) and rng.random() < 0.3:
            s = t.strip(" \n\r"); s = s[:rng.randrange(len(s))]
            c.stat("truncated texts")
            cases.append(("return json.parse(%s)" % klit(s), EXC))
            if isinstance(v, list): cases.append(("return [json.parse_array(%s)...]" % klit(s), EXC))
        # tokens given in pieces
        if k == 2:
            parts = [x for x in (spell(x, rng) for x in ([v] if not isinstance(v, list) else v))]
            if isinstance(v, list):
                toks = ["["]
                for j, p in enumerate(parts): toks += ([","] if j else []) + [p]
                toks += ["]"]
                cases.append(("const g = fun { for const x in %s { yield x } }; return json.parse(g())" % klit(toks), v))
                c.stat("texts parsed from a generator")
    for t in BAD: cases.append(("return json.parse(%s)" % klit(t), EXC))
    for t in BAD: cases.append(("return [json.parse_array(%s)...]" % klit(t), EXC))
    for v in ("buffer()", "(() => 1)", "[buffer()]", "{a: [() => 1]}", "1e308*10", "[-1e308*10]", "(1e308*10)-(1e308*10)"):
        cases.append(("return json.dump(%s)" % v, EXC))
    kmodel.run_cases(c, b, cases, 150, prelude="", mods=["json", "math"], label="parse")
    # what is dumped is JSON for another parser, and parses back
    def go(i):
        rg = __import__("random").Random(c.seed * 7919 + i)
        vals = [rval(rg, rg.choice((0, 1, 2, 3))) for _ in range(60)]
        src = "import base.*\nimport json\nfun FB(bits) { const b = buffer(); b.pack(\">u8\", bits); return b.unpack(\">f8\")[0]; }\n" + "".join(
            "do { const v = %s\nconst t = json.dump(v)\nprint(t)\nprint(json.dump(json.parse(t)))\n}\n" % kval(v) for v in vals)
        return vals, src, vlib.run_script(b, src)
    for vals, src, r in vlib.pmap(go, range(c.n(16, 300))):
        lines = r.out.split(b"\n")
        for j, v in enumerate(vals):
            c.case(("dump", repr(v))); c.stat("values dumped")
            t = lines[2 * j] if 2 * j < len(lines) else b""
            t2 = lines[2 * j + 1] if 2 * j + 1 < len(lines) else b""
            try: ok = same(v, json.loads(t.decode())) and same(v, json.loads(t2.decode()))
            except ValueError: ok = False
            if b"e-" in t or b"e+" in t: c.stat("numbers with exponents dumped")
            if not ok:
                c.violation("dumped text %r of %r is not its JSON (after a round trip: %r)\n%s" % (t, v, t2, r.etext()[:1000]), {"dump.kos": src}); break
        if r.rc or r.abnormal(): c.violation("dump: exit %d %s\n%s" % (r.rc, r.abnormal(), r.etext()[:3000]), {"dump.kos": src})

if __name__ == "__main__": vlib.main(check, "C22", rule="generated values spelled as JSON in many ways, truncated and malformed texts parsed by the real module and compared with the value; dumped texts read by an independent parser; non-trivial: distinct case",
          assumptions=["leniency of the parser beyond the standard (comments, extra commas, other number spellings) is not judged"])
