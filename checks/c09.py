"""C09: arrays behave as sequences under every history of operations."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit

# A pool of distinct elements, referred to by name so that identity is known.
POOL = [None, True, False, 0, 1, -5, 1 << 40, (1 << 62) + 3, -(1 << 63), 1.5, -0.0, "", "a", "żółw", "\U0001f600x"] + list(range(100, 116))
PRE = "const E = [%s]\n" % ", ".join(klit(v) for v in POOL) + '''
fun TRY(f)
{
    try { return f() }
    catch const e { return "EXC!" }
}
fun GEN(a) { for const x in a { yield x } }
fun IT(a) { return GEN(a) }
'''
BAD = "EXC!"

def fix(i, n):
    if i < 0: i += n
    return max(0, min(i, n))

def rng_of(begin, end, n):
    b = 0 if begin is None else fix(begin, n)
    e = n if end is None else fix(end, n)
    return b, max(b, e)

def idx(rng, n):
    return rng.choice((0, 1, -1, n, n - 1, n + 1, -n, -n - 1, rng.randrange(-n - 2, n + 3), rng.randrange(0, n + 1),
                       n // 2, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 63) - 1, -(1 << 63)) if rng.random() < 0.35
                      else (rng.randrange(-n - 1, n + 2), rng.randrange(0, n + 1), rng.randrange(0, n + 1)))

def oidx(rng, n):
    return None if rng.random() < 0.15 else idx(rng, n)

def il(i):
    return klit(i)

class Hist:
    """Random history over three arrays; the model keeps indexes into POOL."""
    def __init__(self, rng, big):
        self.rng, self.big = rng, big
        self.a = [[], [], []]
        self.lines = ["const A0 = []; const A1 = []; const A2 = []; const R = []"]
        self.exp = []

    def emit(self, expr, e):
        self.lines.append("R.push(TRY(() => (%s)))" % expr)
        self.exp.append(e)

    def vals(self, l): return [POOL[i] for i in l]

    def src(self, n=None):
        rng = self.rng
        n = rng.choice((0, 1, 2, 3, 5, 8, 13)) if n is None else n
        if self.big and rng.random() < 0.3: n = rng.choice((31, 32, 33, 63, 64, 65, 127, 128, 129, 200))
        return [rng.randrange(len(POOL)) for _ in range(n)]

    def arr(self, l):
        if len(l) > 40 and len(set(l)) == 1:
            return "array(%d, E[%d])" % (len(l), l[0])
        return "[" + ", ".join("E[%d]" % i for i in l) + "]"

    def step(self):
        rng = self.rng
        w = rng.randrange(3)
        a, A = self.a[w], "A%d" % w
        n = len(a)
        op = rng.randrange(21)
        if op <= 1:
            s = self.src(rng.choice((0, 1, 1, 2, 4)))
            self.emit("%s.push(%s)" % (A, ", ".join("E[%d]" % i for i in s)), n)
            a.extend(s)
        elif op == 2:
            s = self.src()
            if rng.random() < 0.5:
                p = oidx(rng, n)
                b = e = n if p is None else fix(p, n)
                args = il(p)
            else:
                p, q = oidx(rng, n), oidx(rng, n)
                b, e = rng_of(p, q, n)
                args = il(p) + ", " + il(q)
            kind = rng.randrange(3)
            if kind == 0: x = self.arr(s)
            elif kind == 1: x = "IT(%s)" % self.arr(s)
            else:
                o = rng.randrange(3)
                s = list(self.a[o]); x = "A%d" % o
            self.lines.append("const r%d = TRY(() => %s.insert(%s, %s))" % (len(self.exp), A, args, x))
            a[b:e] = s
            self.lines.append("R.push(r%d == %s)" % (len(self.exp), A)); self.exp.append(True)
        elif op == 3:
            p, q = oidx(rng, n), oidx(rng, n)
            b, e = rng_of(p, q, n)
            o = rng.randrange(3)
            s = list(self.a[o])
            self.emit("%s.insert_array(%s, %s, A%d) == %s" % (A, il(p), il(q), o, A), True)
            a[b:e] = s
        elif op == 4:
            if n: self.emit("%s.pop()" % A, POOL[a.pop()])
            else: self.emit("%s.pop()" % A, BAD)
        elif op == 5:
            k = rng.choice((0, 1, 2, n, rng.randrange(n + 1)))
            if k > n: k = n
            if k == 0: self.emit("%s.pop(0)" % A, None)
            else:
                self.emit("%s.pop(%d)" % (A, k), self.vals(a[n - k:])); del a[n - k:]
        elif op == 6:
            i = idx(rng, n)
            j = i + n if i < 0 else i
            if 0 <= j < n: self.emit("%s[%s]" % (A, il(i)), POOL[a[j]])
            else: self.emit("%s[%s]" % (A, il(i)), BAD)
        elif op == 7:
            i = idx(rng, n); v = rng.randrange(len(POOL))
            j = i + n if i < 0 else i
            ok = 0 <= j < n
            self.lines.append("R.push(TRY(fun { %s[%s] = E[%d]; return 1 }))" % (A, "OPAQUE(%s)" % il(i) if rng.random() < 0.5 else il(i), v))
            self.exp.append(1 if ok else BAD)
            if ok: a[j] = v
        elif op == 8:
            p, q = oidx(rng, n), oidx(rng, n)
            b, e = rng_of(p, q, n)
            form = "%s.slice(%s, %s)" % (A, il(p), il(q)) if rng.random() < 0.5 else \
                   "%s[%s:%s]" % (A, "" if p is None and rng.random() < 0.5 else il(p), "" if q is None and rng.random() < 0.5 else il(q))
            self.emit(form, self.vals(a[b:e]))
        elif op == 9:
            m = rng.choice((0, n, n + 1, max(0, n - 1), n * 2, rng.randrange(2 * n + 3), rng.randrange(n + 1)))
            if self.big and rng.random() < 0.3: m = rng.choice((31, 32, 33, 64, 65, 128, 256, 300))
            v = rng.randrange(len(POOL)) if rng.random() < 0.6 else None
            self.emit("%s.resize(%d%s) == %s" % (A, m, "" if v is None else ", E[%d]" % v, A), True)
            if m < n: del a[m:]
            else: a.extend([0 if v is None else v] * (m - n))
        elif op == 10:
            v = rng.randrange(len(POOL))
            k = rng.randrange(3)
            p = oidx(rng, n) if k else 0
            q = oidx(rng, n) if k > 1 else None
            b, e = rng_of(p, q, n)
            self.emit("%s.fill(%s) == %s" % (A, ", ".join(["E[%d]" % v] + [il(p), il(q)][:k]), A), True)
            a[b:e] = [v] * (e - b)
        elif op == 11:
            i = idx(rng, n)
            j = i + n if i < 0 else i
            old = a[j] if 0 <= j < n and rng.random() < 0.6 else rng.randrange(len(POOL))
            v = rng.randrange(len(POOL))
            if 0 <= j < n:
                self.emit("%s.cas(%s, E[%d], E[%d])" % (A, il(i), old, v), POOL[a[j]])
                if a[j] == old: a[j] = v
            else: self.emit("%s.cas(%s, E[%d], E[%d])" % (A, il(i), old, v), BAD)
        elif op == 12:
            self.emit("%s.reserve(%d) == %s" % (A, rng.choice((0, n, n + 5, 2 * n, 64, 100)), A), True)
        elif op == 13:
            i = idx(rng, n)
            j = i + n if i < 0 else i
            d = rng.randrange(len(POOL))
            self.emit("%s.get(%s, E[%d])" % (A, il(i), d), POOL[a[j] if 0 <= j < n else d])
        elif op == 14:
            self.emit("%s.size" % A, n)
        elif op == 15:
            self.emit("array(%s)" % A, self.vals(a))
        elif op == 16:
            o = rng.randrange(3)
            self.emit("[%s..., E[1], A%d...]" % (A, o), self.vals(a + [1] + self.a[o]))
        elif op == 17:
            self.emit("[IT(%s)...]" % A, self.vals(a))
        elif op == 18:
            p, q = oidx(rng, n), oidx(rng, n)
            b, e = rng_of(p, q, n)
            self.emit("[IT(%s).slice(%s, %s)...]" % (A, il(p), il(q)), self.vals(a[b:e]))
        elif op == 19 and n < 400:
            # through native push of itself, doubling the array
            self.emit("%s.insert(void, %s).size" % (A, A), 2 * n)
            a.extend(a[:])
        else:
            o = rng.randrange(3)
            self.emit("array(%s, A%d, \"aż\")" % (A, o), self.vals(a + self.a[o]) + [97, 0x17c])

    def code(self):
        self.lines.append("return [R, A0, A1, A2]")
        return "\n".join(self.lines), [self.exp] + [self.vals(x) for x in self.a]

def sorts(c, n):
    rng = c.rng
    out = []
    for _ in range(n):
        size = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 100, 200, 333))
        kind = rng.randrange(6)
        spread = rng.choice((1, 2, 3, 10, 1000))
        if kind == 0: keys = [rng.randrange(-spread, spread + 1) for _ in range(size)]
        elif kind == 1: keys = [rng.choice(("", "a", "b", "ab", "ż", "ź", "\U0001f600", "aa", "A", "z" * 3)) for _ in range(size)]
        elif kind == 2: keys = [rng.choice((0.5, -1.25, 3.0, 1e300, -1e-300, 2.0)) for _ in range(size)]
        elif kind == 3: keys = [rng.choice((1, 2, 2.0, 1.5, -3, (1 << 60), 0)) for _ in range(size)]
        elif kind == 4: keys = sorted(rng.randrange(spread + 1) for _ in range(size))
        else: keys = sorted((rng.randrange(spread + 1) for _ in range(size)), reverse=True)
        if rng.random() < 0.3 and size > 3:
            i = rng.randrange(size - 1); keys[i], keys[i + 1] = keys[i + 1], keys[i]
        rev = rng.random() < 0.4
        pairs = [[k, i] for i, k in enumerate(keys)]
        e = sorted(pairs, key=lambda p: p[0], reverse=rev)
        e2 = list(reversed(sorted(pairs, key=lambda p: p[0]))) if rev else e
        byself = rng.random() < 0.2
        if byself:
            code = "const a = %s\nconst r = a.sort(%s)\nreturn [r == a, a]" % (klit(keys), "reverse = true" if rev else "")
            e = sorted(keys, reverse=rev)
            e2 = list(reversed(sorted(keys))) if rev else e
        else:
            code = "const a = %s\nconst r = a.sort(p => p[0]%s)\nreturn [r == a, a]" % (klit(pairs), ", true" if rev else "")
        # "preserves order of equal elements" against "in reverse order": both readings are accepted
        out.append((code, kmodel.AnyOf([True, e], [True, e2])))
    # a throwing key function or incomparable keys never lose elements
    for _ in range(n // 10):
        size = rng.randrange(2, 40)
        keys = list(range(size)); rng.shuffle(keys)
        t = rng.randrange(size)
        code = '''const a = %s
var n = 0
var thrown = false
try { a.sort(fun(x) { if n == %d { throw "x" } n += 1; return x }) }
catch const e { thrown = true }
const s = [a...]
s.sort()
return [thrown, s]''' % (klit(keys), t)
        out.append((code, [True, sorted(keys)]))
    return out

def ctors(c, n):
    rng = c.rng
    out = []
    for _ in range(n):
        k = rng.randrange(7)
        if k == 0:
            s = rng.choice((0, 1, 5, 33, 100)); v = rng.choice(POOL)
            out.append(("return array(%d, %s)" % (s, klit(v)), [v] * s))
        elif k == 1:
            s = "".join(chr(rng.choice((97, 0x80, 0x100, 0x20ac, 0x1f600, 0))) for _ in range(rng.randrange(6)))
            b = bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
            l = [rng.randrange(9) for _ in range(rng.randrange(5))]
            parts = [(klit(s), [ord(x) for x in s]), (klit(b), list(b)), (klit(l), l), ("IT(%s)" % klit(l), l)]
            rng.shuffle(parts)
            parts = parts[:rng.randrange(1, 5)]
            out.append(("return array(%s)" % ", ".join(p[0] for p in parts), sum((p[1] for p in parts), [])))
        elif k == 2:
            a, b_, st = rng.randrange(-20, 20), rng.randrange(-20, 20), rng.choice((1, 2, 3, 7, -1, -2, -5))
            out.append(("return [range(%d, %d, %d)...]" % (a, b_, st), list(range(a, b_, st))))
        elif k == 3:
            a = rng.randrange(-3, 12)
            out.append(("return [range(%d)...]" % a, list(range(a)) if a > 0 else []))
        elif k == 4:
            a, b_ = rng.randrange(-8, 8), rng.randrange(-8, 8)
            out.append(("return array(range(%d, %d))" % (a, b_), list(range(a, b_))))
        elif k == 5:
            bad = rng.choice(("array(-1)", "array(1 << 40)", "array(void)", "array(true)", "array(x => x)", "[1].pop(2)", "[].pop()", "[1,2].pop(-1)",
                              "[1].resize(-1)", "[1].resize(\"a\")", "[1].resize(1 << 40)", "[1].reserve(\"x\")", "[1].insert_array(0, 0, \"abc\")",
                              "[1].fill(0, \"a\")", "[1].slice(\"a\", void)", "[1].insert(0, void)", "[1][\"a\"]", "[1][void]", "[1].cas(1, 1, 2)"))
            out.append(("return " + bad, EXC))
        else:
            l = [rng.randrange(50) for _ in range(rng.randrange(10))]
            out.append(("const r = []\nfor const x in %s { r.push(x) }\nreturn r" % klit(l), l))
    return out

ORDERS = ("i", "n - i", "7", "i % 10", "(i < (n / 2)) ? i : (n - i)", "(i * 7919) % n", "((i % 2) == 0) ? i : (n - i)", "i * i", "i / 1000", "(i == 5) ? n : i")

def large(c):
    """Sorts of many elements which are already in some order."""
    b = vlib.build("rel")
    def one(i):
        rng = c.subrng("large", i)
        order, n = ORDERS[i % len(ORDERS)], rng.choice((20000, 70000, 130000))
        rev, key = rng.random() < 0.4, rng.random() < 0.3
        if key: n = min(n, 50000)
        prog = """import base.*
const n = %d
const a = array(n, void)
var tot = 0
for const i in range(n) { const v = %s; tot += v ; a[i] = %s }
const r = a.sort(%s, %s)
assert r == a && a.size == n
var tot2 = a[0]%s
for const i in range(1, n) {
    const p = a[i - 1]%s
    const q = a[i]%s
    assert p %s q
    %s
    tot2 += q
}
assert tot == tot2
print("sorted")
""" % (n, order, "[v, i]" if key else "v", "x => (x[0])" if key else "void", str(rev).lower(), *((("[0]" if key else ""),) * 3), ">=" if rev else "<=",
       "assert p != q || a[i - 1][1] %s a[i][1]" % (">" if rev else "<") if key else "")
        return i, prog, n, vlib.run_script(b, prog, timeout=100)
    for i, prog, n, r in vlib.pmap(one, range(c.n(20, 200))):
        c.case(("large", prog)); c.stat("elements in large sorts", n)
        if r.abnormal() or r.rc or r.text() != "sorted\n":
            c.violation("sort of %d elements: %s exit %d %s\n%s" % (n, r.abnormal() or "", r.rc, r.text()[-200:], r.etext()[-1000:]), {"case.kos": prog}, key="large")

def check(c):
    large(c)
    b = vlib.build("asan")
    cases = []
    ops = 0
    for i in range(c.n(2500, 40000)):
        big = c.rng.random() < 0.25
        h = Hist(c.rng, big)
        for _ in range(c.rng.randrange(4, 40)):
            if sum(map(len, h.a)) > 1500: break
            h.step()
            ops += 1
        cases.append(h.code())
    for code, e in cases[:2]: c.sample(code[:600])
    c.stat("array operations checked", ops)
    kmodel.run_cases(c, b, cases, batch=40, prelude=PRE, label="array history")
    kmodel.run_cases(c, b, sorts(c, c.n(1500, 20000)), batch=60, prelude=PRE, label="sort")
    kmodel.run_cases(c, b, ctors(c, c.n(1500, 15000)), batch=150, prelude=PRE, label="constructor or range")

if __name__ == "__main__": vlib.main(check, "C09", rule="random histories of up to 40 operations over three arrays of up to about 1500 elements (each result and the final contents compared with a "
          "list model), sorts with keys of every ordered type, constructors, ranges; non-trivial: distinct history",
          assumptions=["Python list semantics plus the documented index rules are the oracle"])
