"""C25: mathematical functions return the defined values; random generators are reproducible and stay in range."""
import sys, os, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit, IMIN, IMAX

M64 = (1 << 64) - 1
class Pcg:
    """PCG XSH RR 32, from its published definition."""
    def __init__(self, state, stream):
        self.inc = (stream << 1 | 1) & M64
        self.s = (self.inc + state) & M64
        self.next()
    def next(self):
        s = self.s
        self.s = (s * 6364136223846793005 + self.inc) & M64
        x = ((s >> 18 ^ s) >> 27) & 0xffffffff
        r = s >> 59
        return (x >> r | x << (-r & 31)) & 0xffffffff
class Rng:
    def __init__(self, seed):
        seed &= M64
        i = Pcg(seed, ~seed & M64)
        self.p = []
        for _ in range(2):
            a = [i.next() for _ in range(4)]
            self.p.append(Pcg(a[0] << 32 | a[1], a[2] << 32 | a[3]))
    def u64(self):
        lo = self.p[0].next()
        return self.p[1].next() << 32 | lo
    def below(self, m):
        if m == M64: return self.u64()
        if m == 0xffffffff: return self.p[0].next()
        if m < 0xffffffff:
            n, sel = m + 1, 0
            while 1:
                r = self.p[sel].next()
                if r >= (1 << 32) % n: return r % n
                sel ^= 1
        n = m + 1
        while 1:
            r = self.u64()
            if r >= (1 << 64) % n: return r % n
    def integer(self, a=None, b=None):
        if a is None: return kmodel.wrap(self.u64())
        if a == b: return a
        return a + self.below(b - a)
    def float(self):
        v = self.u64() & 0xfffffffffffff
        return struct.unpack(">d", struct.pack(">Q", v | 0x3ff << 52))[0] - 1.0
    def shuffle(self, a):
        a = list(a)
        if len(a) > 1:
            m = len(a) - 1
            for i in range(m - 1, -1, -1):
                j = self.integer(0, m)
                a[i], a[j] = a[j], a[i]
        return a

INF, NAN = float("inf"), float("nan")
SPECIAL = [0, 1, -1, 2, -2, 3, 10, -10, 0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.5, 1.5, 1e-300, 1e300, -1e300, 5e-324, 2.0 ** 52 + 0.5, 2.0 ** 53, 0.49999999999999994, INF, -INF, NAN, IMAX, IMIN, IMIN + 1, IMAX - 1, (1 << 62), -(1 << 62) - 1, math.pi, math.e, 709.0, 710.0, -745.0, -746.0, 1e22]
def rnum(rng):
    k = rng.randrange(6)
    if k < 2: return rng.choice(SPECIAL)
    if k == 2: return rng.randrange(-(1 << rng.randrange(1, 63)), 1 << rng.randrange(1, 63))
    if k == 3: return rng.uniform(-2, 2)
    if k == 4: return rng.uniform(-1000, 1000)
    return struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]

def f1(name, x):
    """Exact expectation: a value, EXC, or ("~", v) for a value with rounding of the last bits."""
    isint = isinstance(x, int)
    d = float(x)
    nan = d != d
    if name == "abs": return EXC if x is IMIN or isint and x == IMIN else abs(x)
    if name in ("ceil", "floor"):
        if isint: return x
        if nan or d in (INF, -INF): return x
        r = float(math.ceil(d) if name == "ceil" else math.floor(d))
        return math.copysign(r, d) if r == 0 else r
    if name == "is_infinity": return not isint and d in (INF, -INF)
    if name == "is_nan": return not isint and nan
    if nan: return ("~", NAN)
    if name == "sqrt": return EXC if d < 0 else math.sqrt(d) if d != INF else INF
    if name in ("acos", "asin"): return EXC if d < -1 or d > 1 else ("~", getattr(math, name)(d))
    if name in ("log", "log10"): return EXC if d <= 0 else ("~", getattr(math, name)(d) if d != INF else INF)
    if name == "log1p": return EXC if d <= -1 else ("~", math.log1p(d) if d != INF else INF)
    if name in ("sin", "cos", "tan"): return ("~", getattr(math, name)(d) if d not in (INF, -INF) else NAN)
    try: return ("~", getattr(math, name)(d))
    except OverflowError: return ("~", INF)
def fpow(x, y):
    a, b = float(x), float(y)
    if a == 0 and b == 0: return EXC
    if a < 0 and b != b: return None        # not said
    if a < 0 and b not in (INF, -INF) and b != math.floor(b): return EXC
    if a == 0 and not b > 0: return None        # not said
    try: return ("~", math.pow(a, b))
    except OverflowError: return ("~", -INF if a < 0 and b % 2 == 1 else INF)
    except ValueError: return None

PRE = r'''
import math
import random
fun NEAR(got, want) {
    if typeof got != "float" { return ["type", typeof got, got] }
    if want != want { return got != got ? true : got }
    if got == want { return true }
    const d = got > want ? got - want : want - got
    const m = want > 0 ? want : -want
    return d <= m * 0.000000000000001 ? true : d <= FB(0x0000000000000004) ? true : got
}
'''.replace("import math\nimport random\n", "")

def mathcases(c, n):
    out = []
    names = ["abs", "ceil", "floor", "is_infinity", "is_nan", "sqrt", "acos", "asin", "atan", "cos", "sin", "tan", "exp", "expm1", "log", "log10", "log1p"]
    todo = [(f, x) for f in names for x in SPECIAL]
    rng = c.subrng("math")
    todo += [(rng.choice(names), rnum(rng)) for _ in range(n)]
    for f, x in todo:
        if f in ("sin", "cos", "tan") and abs(float(x)) > 1e15 and abs(float(x)) != INF: continue
        e = f1(f, x)
        call = "math.%s(OPAQUE(%s))" % (f, klit(x))
        if isinstance(e, tuple): out.append(("return NEAR(%s, %s)" % (call, klit(e[1])), True))
        else: out.append(("return " + call, e))
    pairs = [(x, y) for x in SPECIAL for y in SPECIAL if rng.random() < 0.4] + [(rnum(rng), rnum(rng)) for _ in range(n // 2)] + [(rng.randrange(-20, 20), rng.randrange(-9, 12)) for _ in range(n // 4)]
    for x, y in pairs:
        e = fpow(x, y)
        if e is None: continue
        call = "math.pow(OPAQUE(%s), OPAQUE(%s))" % (klit(x), klit(y))
        out.append(("return " + call, EXC) if not isinstance(e, tuple) else ("return NEAR(%s, %s)" % (call, klit(e[1])), True))
    for _ in range(n // 8):
        v = [x for x in (rnum(rng) for _ in range(rng.randrange(1, 7))) if x == x] or [1]
        # numbers of both types compare by value; the first of equal ones is returned
        def pick(better):
            r = v[0]
            for x in v[1:]:
                a, b = (float(x), float(r)) if isinstance(x, float) or isinstance(r, float) else (x, r)
                if better(a, b): r = x
            return r
        out.append(("const v = %s; return [math.min(v...), math.max(v...)]" % klit(v), [pick(lambda a, b: a < b), pick(lambda a, b: a > b)]))
    out.append(("return [math.pi, math.e]", [math.pi, math.e]))
    return out

def randcases(c, n):
    out = []
    for i in range(n):
        rng = c.subrng("random", i)
        k = rng.randrange(5)
        seed = k < 3 and rng.choice((0, 42, -1, IMIN, IMAX, rng.randrange(1 << 32), rng.randrange(IMIN, IMAX), rng.uniform(-1e6, 1e6)))
        body, exp = [], []
        if k < 3:
            r = Rng(math.floor(seed))
            body.append("const g = random.random(%s); const r = []" % klit(seed))
        else: body.append("const g = %s; const r = []" % ("random.random()" if k == 3 else "random.grandom"))
        for _ in range(rng.choice((1, 3, 10, 40))):
            j = rng.randrange(6)
            if j == 0:
                if k < 3: body.append("r.push(g.integer())"); exp.append(r.integer())
                else: body.append("r.push(typeof g.integer())"); exp.append("integer")
            elif j in (1, 2, 3):
                kind = rng.randrange(6)
                if kind == 0: a, b = IMIN, IMAX
                elif kind == 1: a = rng.randrange(-10, 10); b = a + rng.randrange(0, 10)
                elif kind == 2: a = rng.randrange(IMIN, IMAX - (1 << 32)); b = a + rng.choice(((1 << 32) - 1, 1 << 32, (1 << 32) - 2, (1 << 31), (1 << 32) + 1))
                elif kind == 3: a, b = sorted((rng.randrange(IMIN, IMAX), rng.randrange(IMIN, IMAX)))
                elif kind == 4: a, b = rng.choice(((IMIN, IMIN), (IMAX, IMAX), (IMIN, 0), (0, IMAX), (-1, IMAX), (IMIN, IMAX - 1), (IMIN + 1, IMAX)))
                else: a = rng.randrange(IMIN, IMAX >> 1); b = a + (1 << rng.randrange(62)) - rng.randrange(2)
                if k < 3: body.append("r.push(g.integer(%s, %s))" % (klit(a), klit(b))); exp.append(r.integer(a, b))
                else: body.append("if true { const x = g.integer(%s, %s); r.push(x >= %s && x <= %s) }" % (klit(a), klit(b), klit(a), klit(b))); exp.append(True)
            elif j == 4:
                if k < 3: body.append("r.push(g.float())"); exp.append(r.float())
                else: body.append("if true { const x = g.float(); r.push(x >= 0.0 && x < 1.0) }"); exp.append(True)
            else:
                a = list(range(rng.choice((0, 1, 2, 3, 10))))
                if k < 3: body.append("r.push(g.shuffle(%s))" % klit(a)); r.shuffle; exp.append(r.shuffle(a))
                else: body.append("if true { const s = g.shuffle(%s); s.sort(); r.push(s) }" % klit(a)); exp.append(a)
        out.append(("; ".join(body) + "; return r", exp))
    for bad in ("g.integer(2, 1)", "g.integer(1)", "g.integer(void, 1)", "g.integer(\"a\", 1)", "random.random(\"x\")", "random.random([])", "g.integer(0, 1e300)", "random.random(1e300)"):
        out.append(("const g = random.random(1); return %s" % bad, EXC))
    return out

def spread(c, b, n):
    """Unseeded generators differ from each other and hit every value of a small range."""
    prog = "import base.*\nimport random\nconst h = array(7, 0)\nfor const i in range(7000) { h[random.grandom.integer(0, 6)] += 1 }\nprint(h)\nprint(random.random().integer(), random.random().integer())\n"
    firsts = []
    for i in range(n):
        r = vlib.run_script(b, prog, timeout=60)
        lines = r.text().split("\n")
        try:
            h = [int(x) for x in lines[0].strip("[]").split(",")]
            firsts += [int(x) for x in lines[1].split()]
            ok = sum(h) == 7000 and len(h) == 7 and min(h) > 700 and max(h) < 1300      # 10 standard deviations
        except (ValueError, IndexError): ok = False
        c.case(("spread", i))
        if not ok or r.abnormal(): c.violation("unseeded random integers are not spread evenly: %s %s" % (lines[:2], r.etext()[-500:]), {"case.kos": prog})
    if len(set(firsts)) != len(firsts): c.violation("unseeded generators repeat each other: %s" % firsts, {"case.kos": prog})

def shared(c, b, label, n):
    """Threads sharing a generator take distinct members of its one sequence."""
    for i in range(n):
        rng = c.subrng("shared", label, i)
        seed, nt, k = rng.randrange(1 << 40), rng.choice((2, 3, 4, 8)), rng.choice((50, 300, 1500))
        call = rng.choice(("integer()", "integer()", "float()"))
        prog = """import base.*
import random
const g = random.random(%d)
fun draw(n) {
    const r = array(n, void)
    for const i in range(n) { r[i] = g.%s }
    return r
}
const t = []
for const i in range(%d) { t.push(async draw(%d)) }
const got = []
for const x in t { got.push(x.wait()...) }
const want = {}
const h = random.random(%d)
for const i in range(%d) {
    const key = "\\(h.%s)"
    want[key] = (key in want ? want[key] : 0) + 1
}
let left = 0
for const x in got {
    const key = "\\(x)"
    if key in want && want[key] > 0 { want[key] -= 1 } else { left += 1 }
}
print(got.size, left)
""" % (seed, call, nt, k, seed, nt * k, call)
        prog = prog.replace("let left", "var left").replace("\\\\(", "\\(")
        r = vlib.run_script(b, prog, timeout=200)
        c.case(("shared", seed, nt, k, call)); c.stat("numbers drawn from a shared generator (%s)" % label, nt * k)
        if r.abnormal() or r.text() != "%d 0\n" % (nt * k):
            c.violation("%d threads drawing %d numbers each from a generator: %s\n%s\n%s" % (nt, k, r.abnormal() or "exit %d" % r.rc, r.text()[-400:], r.etext()[-3000:]), {"case.kos": prog}, key="shared")

def check(c):
    shared(c, vlib.build("asan"), "asan", c.n(6, 150))
    shared(c, vlib.build("tsanopt"), "tsan", c.n(3, 60))
    for cfg, q, t in (("asan", 500, 30000), ("rel", 500, 60000)):
        b = vlib.build(cfg)
        kmodel.run_cases(c, b, mathcases(c, c.n(q, t)), prelude=PRE, mods=("math", "random"), label="math " + cfg)
        kmodel.run_cases(c, b, randcases(c, c.n(q, t)), prelude=PRE, mods=("math", "random"), batch=60, label="random " + cfg)
        spread(c, b, c.n(4, 100))

if __name__ == "__main__": vlib.main(check, "C25", rule="calls of mathematical functions and random generators compared with an independent implementation; non-trivial: distinct call sequence",
          assumptions=["results of transcendental functions may differ in the last bits; 0 raised to a negative power is not judged", "the sequence of a seeded generator is the one the repository produces at this commit (PCG XSH RR 32 with two streams)"])
