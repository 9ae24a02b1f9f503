"""C01: every operator gives the documented result for every combination of operand values."""
import sys, os, struct, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel, kops, kref
from kmodel import EXC, klit, IMIN, IMAX, wrap, KosError

INTS = sorted({0, 1, -1, 2, -2, 3, 5, 7, 10, 63, 64, 65, -63, -64, -65, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535,
        (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1,
        (1 << 61), (1 << 62) - 1, 1 << 62, -(1 << 62), -(1 << 62) - 1, IMAX, IMAX - 1, IMIN, IMIN + 1, 0x5555555555555555, -0x5555555555555556,
        0x0f0f0f0f0f0f0f0f, 1000000007, 6700417})
FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 2.5, 3.0, 0.1, 1e10, -1e10, 1e18, 9.2e18, -9.2e18, 9223372036854775808.0,
          -9223372036854775808.0, 1e19, 9007199254740993.0, 4503599627370497.5, 1e300, -1e300, 1.7976931348623157e308, 5e-324,
          2.2250738585072014e-308, float("inf"), float("-inf"), float("nan")]
OTHER = [None, True, False, "", "a", "b", "ab", "\u0105", "\U0001f600", "10"]
ARITH = ["+", "-", "*", "/", "%"]
BIT = ["&", "|", "^", "<<", ">>", ">>>"]
CMP = ["==", "!=", "<", ">", "<=", ">="]

def ref(op, a, b):
    try:
        if op in ARITH: return kops.arith(op, a, b)
        if op in BIT: return kops.bitop(op, a, b)
    except KosError:
        return EXC
    c = kref.cmp(a, b)
    if op == "==": return c == 0
    if op == "!=": return c != 0
    if c is None: return False
    return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]

def srclit(v):
    """Plain literal visible to the compiler, or None."""
    if isinstance(v, float):
        if v != v or math.isinf(v): return None
        s = repr(v).replace("e-0", "e-").replace("e+0", "e+")
        return "(" + s + ")"
    if isinstance(v, int) and not isinstance(v, bool) and v == IMIN: return None
    return klit(v)

def forms(rng, op, a, b, e):
    """Several ways to compute the same thing."""
    A, B = klit(a), klit(b)
    out = []
    k = rng.randrange(8)
    la, lb = srclit(a), srclit(b)
    if k == 0 or e is EXC and k < 4:
        out.append("return OPAQUE(%s) %s OPAQUE(%s)" % (A, op, B))
    elif k == 1 and la is not None and lb is not None and e is not EXC:
        out.append("return %s %s %s" % (la, op, lb))
    elif k == 2 and lb is not None:
        out.append("const x = OPAQUE(%s)\nreturn x %s %s" % (A, op, lb) if e is not EXC else "return OPAQUE(%s) %s OPAQUE(%s)" % (A, op, B))
    elif k == 3 and la is not None:
        out.append("const x = OPAQUE(%s)\nreturn %s %s x" % (B, la, op) if e is not EXC else "return OPAQUE(%s) %s OPAQUE(%s)" % (A, op, B))
    elif k == 4 and op not in CMP:
        out.append("var x = OPAQUE(%s)\nx %s= OPAQUE(%s)\nreturn x" % (A, op, B))
    elif k == 5 and op not in CMP:
        out.append("const x = [OPAQUE(%s)]\nx[0] %s= OPAQUE(%s)\nreturn x[0]" % (A, op, B))
    elif k == 6 and op not in CMP:
        out.append("const x = {p: OPAQUE(%s)}\nx.p %s= OPAQUE(%s)\nreturn x.p" % (A, op, B))
    elif k == 7 and op in CMP:
        out.append("if OPAQUE(%s) %s OPAQUE(%s) { return true }\nelse { return false }" % (A, op, B))
    else:
        out.append("const a = OPAQUE(%s); const b = OPAQUE(%s)\nreturn a %s b" % (A, B, op))
    return out

def check(c):
    b = vlib.build("asan")
    rng = c.rng
    cases = []
    nums = INTS + FLOATS
    def num():
        k = rng.randrange(10)
        if k < 4: return rng.choice(INTS)
        if k < 6: return rng.choice(FLOATS)
        if k == 6: return wrap(rng.getrandbits(64))
        if k == 7: return rng.randrange(-300, 300)
        if k == 8: return rng.choice((1, -1)) * (1 << rng.randrange(63)) + rng.randrange(-2, 3)
        if rng.random() < 0.5: return struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        return rng.choice((1, -1)) * rng.randrange(1 << 20) / rng.choice((1, 2, 4, 8, 1024))
    def nn(x):
        return x
    def add(op, x, y):
        e = ref(op, x, y)
        for f in forms(rng, op, x, y, e): cases.append((f, e))
    # every pair of corner values with some operators, all operators over the run
    for x in nums:
        for y in nums:
            ops = ARITH + BIT + CMP
            for op in (ops if c.tier == "thorough" else rng.sample(ops, 5)): add(op, x, y)
    for _ in range(c.n(25000, 300000)):
        add(rng.choice(ARITH + BIT + CMP), num(), num())
    # operands of other types
    allv = OTHER + [0, 1, -1, 1.5, float("nan"), IMAX]
    for x in allv:
        for y in allv:
            for op in (ARITH + BIT + CMP if c.tier == "thorough" else ["+", rng.choice(ARITH), rng.choice(BIT)] + rng.sample(CMP, 3)):
                add(op, x, y)
    # unary
    for x in nums + OTHER + [num() for _ in range(c.n(300, 5000))]:
        for op in ("-", "~", "!"):
            try: e = kops.unary(op, x)
            except KosError: e = EXC
            l = srclit(x)
            cases.append(("return %s OPAQUE(%s)" % (op, klit(x)), e))
            if l is not None and e is not EXC: cases.append(("return %s %s" % (op, l), e))
    # logic keeps values
    tv = OTHER + [0, 1, 0.0, -0.0, 2.5, float("nan"), [], [0]]
    for x in tv:
        for y in tv:
            cases.append(("return OPAQUE(%s) && OPAQUE(%s)" % (klit(x), klit(y)), y if kops.truthy(x) else x))
            cases.append(("return OPAQUE(%s) || OPAQUE(%s)" % (klit(x), klit(y)), x if kops.truthy(x) else y))
        cases.append(("return OPAQUE(%s) ? 1 : 2" % klit(x), 1 if kops.truthy(x) else 2))
        cases.append(("if OPAQUE(%s) { return 1 }\nelse { return 2 }" % klit(x), 1 if kops.truthy(x) else 2))
        cases.append(("var n = 0\nwhile OPAQUE(%s) { n += 1; if n > 3 { break } }\nreturn n" % klit(x), 4 if kops.truthy(x) else 0))
        cases.append(("return ! OPAQUE(%s)" % klit(x), not kops.truthy(x)))
        cases.append(("return typeof OPAQUE(%s)" % klit(x), kref.typename(x) if not isinstance(x, list) else "array"))
    # arrays compare element by element
    def arr(d):
        return [arr(d - 1) if d and rng.random() < 0.25 else rng.choice((0, 1, -1, 1.0, 0.5, "a", "b", "", True, None, float("nan"))) for _ in range(rng.randrange(4))]
    def toarr(v):
        if isinstance(v, list):
            o = kref.Arr([toarr(x) for x in v]); return o
        return v
    for _ in range(c.n(600, 8000)):
        x = arr(2)
        y = [z for z in x] if rng.random() < 0.3 else arr(2)
        if rng.random() < 0.3 and y: y[rng.randrange(len(y))] = rng.choice((0, 2, "b", None))
        op = rng.choice(CMP)
        cases.append(("return OPAQUE(%s) %s OPAQUE(%s)" % (klit(x), op, klit(y)), ref(op, toarr(x), toarr(y))))
    # buffers compare as byte sequences, however they came to be (with and without storage)
    for _ in range(c.n(800, 8000)):
        x = bytes(rng.choice((0, 1, 127, 128, 255)) for _ in range(rng.choice((0, 0, 1, 2, 3, 9))))
        y = x if rng.random() < 0.3 else x[:rng.randrange(len(x) + 1)] + bytes(rng.choice((0, 255)) for _ in range(rng.randrange(3)))
        def bl(v):
            k = rng.randrange(4)
            if not v: return ("buffer()", "buffer(0)", "buffer([])", "buffer([1])[1:]")[k]
            return klit(v) if k else "buffer(%s)" % klit(v)
        op = rng.choice(CMP)
        e = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        cases.append(("return OPAQUE(%s) %s OPAQUE(%s)" % (bl(x), op, bl(y)), e))
        cases.append(("return [1, %s] %s [1, %s]" % (bl(x), op, bl(y)), e))
    rng.shuffle(cases)
    for code, e in cases[:5]: c.sample("%s  ==> %s" % (code, "exception" if e is EXC else kmodel.ser(e)))
    kmodel.run_cases(c, b, cases, batch=150)

if __name__ == "__main__": vlib.main(check, "C01", rule="operator applied to corner and random operand values in several syntactic forms (folded constants, "
          "opaque operands, compound assignment, conditions); distinct by program text; each result compared with exact 64-bit "
          "integer / IEEE arithmetic computed independently",
          assumptions=["the host's Python computes IEEE double arithmetic correctly"])
