"""C11: buffers behave as byte sequences; pack and unpack follow the format exactly."""
import sys, os, struct, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit, Buf

BAD = "EXC!"
PRE = '''
fun TRY(f)
{
    try { return f() }
    catch const e { return "EXC!" }
}
fun GEN(a) { for const x in a { yield x } }
'''
def fix(i, n):
    if i < 0: i += n
    return max(0, min(i, n))

def idx(rng, n):
    if rng.random() < 0.15:
        return rng.choice((1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32), -(1 << 31), (1 << 63) - 1, -(1 << 63), n + 1, -n - 1, n + 100))
    return rng.randrange(-n - 1, n + 2)

def oidx(rng, n):
    return None if rng.random() < 0.15 else idx(rng, n)

def rbytes(rng, n=None):
    n = rng.choice((0, 1, 2, 3, 5, 8, 13)) if n is None else n
    return bytes(rng.randrange(256) for _ in range(n))

class Hist:
    def __init__(self, rng):
        self.rng = rng
        self.b = [bytearray(), bytearray()]
        self.lines = ["const B0 = buffer(); const B1 = buffer(); const R = []"]
        self.exp = []
    def emit(self, expr, e):
        self.lines.append("R.push(TRY(() => (%s)))" % expr); self.exp.append(e)
    def step(self):
        rng = self.rng
        w = rng.randrange(2)
        b, B = self.b[w], "B%d" % w
        o = rng.randrange(2)
        n = len(b)
        op = rng.randrange(15)
        if op == 0:
            m = rng.choice((0, n, n + 1, max(0, n - 1), 2 * n, rng.randrange(2 * n + 3), 40))
            v = rng.randrange(256) if rng.random() < 0.6 else None
            self.emit("%s.resize(%d%s) == %s" % (B, m, "" if v is None else ", %d" % v, B), True)
            if m < n: del b[m:]
            else: b.extend(bytes([v or 0]) * (m - n))
        elif op == 1:
            v = rng.randrange(256)
            k = rng.randrange(3)
            p = oidx(rng, n) if k else 0
            q = oidx(rng, n) if k > 1 else None
            s = 0 if p is None else fix(p, n)
            e = n if q is None else fix(q, n)
            self.emit("%s.fill(%s).size" % (B, ", ".join([str(v)] + [klit(p), klit(q)][:k])), n)
            if e > s: b[s:e] = bytes([v]) * (e - s)
        elif op in (2, 3):
            src = bytes(self.b[o]) if rng.random() < 0.4 else None
            if src is not None: x = "B%d" % o
            else:
                k = rng.randrange(4)
                src = rbytes(rng)
                if k == 0: x = klit(src)
                elif k == 1: x = klit(list(src))
                elif k == 2: x = "GEN(%s)" % klit(list(src))
                else:
                    t = "".join(rng.choice("aż€\U0001f600") for _ in range(rng.randrange(5)))
                    src = t.encode(); x = klit(t)
            if rng.random() < 0.5:
                p = oidx(rng, n)
                s = e = n if p is None else fix(p, n)
                a = klit(p)
            else:
                p, q = oidx(rng, n), oidx(rng, n)
                s = 0 if p is None else fix(p, n)
                e = max(s, n if q is None else fix(q, n))
                a = klit(p) + ", " + klit(q)
            self.emit("%s.insert(%s, %s).size" % (B, a, x), n - (e - s) + len(src))
            b[s:e] = src
        elif op == 4:
            p, q, r = oidx(rng, n), oidx(rng, len(self.b[o])), oidx(rng, len(self.b[o]))
            src = bytes(self.b[o]); m = len(src)
            s = 0 if p is None else fix(p, n)
            f = 0 if q is None else fix(q, m); t = m if r is None else fix(r, m)
            d = src[f:max(f, t)][:n - s]
            self.emit("%s.copy_buffer(%s, B%d, %s, %s).size" % (B, klit(p), o, klit(q), klit(r)), n)
            b[s:s + len(d)] = d
        elif op == 5:
            i = idx(rng, n); j = i + n if i < 0 else i
            self.emit("%s[%s]" % (B, klit(i)), b[j] if 0 <= j < n else BAD)
        elif op == 6:
            i = idx(rng, n); j = i + n if i < 0 else i
            v = rng.choice((0, 255, 256, -1, 7, 1 << 40))
            ok = 0 <= j < n and 0 <= v <= 255
            self.lines.append("R.push(TRY(fun { %s[OPAQUE(%s)] = %s; return 1 }))" % (B, klit(i), klit(v))); self.exp.append(1 if ok else BAD)
            if ok: b[j] = v
        elif op == 7:
            p, q = oidx(rng, n), oidx(rng, n)
            s = 0 if p is None else fix(p, n); e = n if q is None else fix(q, n)
            f = "%s.slice(%s, %s)" if rng.random() < 0.5 else "%s[%s:%s]"
            self.emit(f % (B, klit(p), klit(q)), bytes(b[s:max(s, e)]))
        elif op == 8:
            self.emit("%s.reserve(%d).size" % (B, rng.choice((0, 1, n, n + 5, 64, 1000))), n)
        elif op == 9:
            i = idx(rng, n); j = i + n if i < 0 else i
            self.emit("%s.get(%s, \"x\")" % (B, klit(i)), b[j] if 0 <= j < n else "x")
        elif op == 10:
            self.emit("[%s...]" % B, list(b))
        elif op == 11:
            self.emit("buffer(%s, B%d, [1, 2.5, 255], \"ż\", GEN([7]))" % (B, o), bytes(b) + bytes(self.b[o]) + b"\x01\x02\xff" + "ż".encode() + b"\x07")
        elif op == 12:
            self.emit("%s == B%d" % (B, o), b == self.b[o])
        elif op == 13:
            fmt, args, data = gen_pack(rng)
            if data is BAD: return
            self.emit("%s.pack(%s).size" % (B, ", ".join([klit(fmt)] + [klit(x) for x in args])), n + len(data))
            b.extend(data)
        else:
            self.emit("%s.size" % B, n)
    def code(self):
        self.lines.append("return [R, B0, B1]")
        return "\n".join(self.lines), [self.exp] + [bytes(x) for x in self.b]

def f4(v):
    try: return struct.pack("<f", v)
    except OverflowError: return struct.pack("<f", math.copysign(math.inf, v))

def rint(rng):
    return rng.choice((0, 1, -1, 127, 128, 255, 256, -128, 0x1234, 0x89abcdef, -(1 << 63), (1 << 63) - 1, 0x123456789abcdef0, rng.getrandbits(63), -rng.getrandbits(40)))

def rfloat(rng):
    return rng.choice((0.0, -0.0, 1.5, -2.25, 1e10, 0.1, 3.4e38, 3.5e38, 1e-45, 1e300, -1e-320, math.inf, -math.inf))

STR = ["", "a", "hello", "ż", "€uro", "\U0001f600!", "a\0b", "x" * 20]
def gen_pack(rng):
    """(format, arguments, bytes)"""
    fmt, args, out = [], [], bytearray()
    big = False
    for _ in range(rng.randrange(1, 7)):
        k = rng.choice("uuiiffsbx<>S")
        if k in "<>":
            fmt.append(k); big = k == ">"; continue
        cnt = rng.choice((0, 1, 2, 3, 5)) if rng.random() < 0.4 else None
        c = 1 if cnt is None else cnt
        pre = "" if cnt is None else "%d%s" % (cnt, rng.choice(("", "", " ")))
        if k == "x":
            fmt.append(pre + "x"); out += bytes(c)
        elif k in "ui":
            s = rng.choice((1, 2, 4, 8))
            fmt.append("%s%s%d" % (pre, k, s))
            for _ in range(c):
                v = rint(rng)
                if rng.random() < 0.15: v = rng.choice((1.5, -1.5, 255.0, -0.5, 1e9 + 0.5))
                args.append(v)
                x = (math.floor(v) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
                out += x[::-1] if big else x
        elif k == "f":
            s = rng.choice((4, 8))
            fmt.append("%sf%d" % (pre, s))
            for _ in range(c):
                v = rfloat(rng) if rng.random() < 0.7 else rint(rng)
                args.append(v)
                x = f4(float(v)) if s == 4 else struct.pack("<d", float(v))
                out += x[::-1] if big else x
        elif k == "s":
            s = rng.choice((0, 1, 2, 4, 7, 30))
            fmt.append("%ss%d" % (pre, s))
            for _ in range(c):
                v = rng.choice(STR); args.append(v)
                out += v.encode()[:s].ljust(s, b"\0")
        elif k == "S":
            fmt.append("%ss" % pre + ("" if False else " "))
            for _ in range(c):
                v = rng.choice(STR); args.append(v)
                out += v.encode()
        else:
            s = rng.choice((0, 1, 2, 4, 7, 30))
            fmt.append("%sb%d" % (pre, s))
            for _ in range(c):
                v = Buf(rbytes(rng)); args.append(v)
                out += v[:s].ljust(s, b"\0")
    f = ""
    for x in fmt:
        sep = rng.choice(("", "", " ", "  "))
        if f and f[-1].isdigit() and x[0].isdigit() and not sep: sep = " "
        if f and f[-1] == "s" and x[0].isdigit(): sep = " "
        f += sep + x
    if not args or isinstance(args[0], list): pass
    return f, args, bytes(out)

def gen_unpack(rng):
    fmt, vals = [], []
    pos = rng.choice((0, 0, 1, 3))
    data = bytearray(rbytes(rng, pos))
    big = False
    for _ in range(rng.randrange(1, 7)):
        k = rng.choice("uuiiffsbx<>")
        if k in "<>":
            fmt.append(k); big = k == ">"; continue
        cnt = rng.choice((0, 1, 2, 3, 5)) if rng.random() < 0.4 else None
        c = 1 if cnt is None else cnt
        pre = "" if cnt is None else "%d" % cnt
        if k == "x":
            fmt.append(pre + "x"); data += rbytes(rng, c)
        elif k in "ui":
            s = rng.choice((1, 2, 4, 8))
            fmt.append("%s%s%d" % (pre, k, s))
            for _ in range(c):
                x = rng.choice((rbytes(rng, s), b"\xff" * s, b"\x80" * s, bytes(s)))
                data += x
                v = int.from_bytes(x, "big" if big else "little", signed=(k == "i" or s == 8))
                vals.append(v)
        elif k == "f":
            s = rng.choice((4, 8))
            fmt.append("%sf%d" % (pre, s))
            for _ in range(c):
                x = rbytes(rng, s) if rng.random() < 0.5 else struct.pack("<f" if s == 4 else "<d", rng.choice((1.5, -0.0, 0.1, math.inf)))
                data += x
                vals.append(struct.unpack((">" if big else "<") + ("f" if s == 4 else "d"), x)[0])
        elif k == "s":
            v = rng.choice(STR[:7])
            fmt.append("%ss%d" % (pre, len(v.encode())))
            for _ in range(c):
                data += v.encode(); vals.append(v)
        else:
            s = rng.choice((0, 1, 4, 9))
            fmt.append("%sb%d" % (pre, s))
            for _ in range(c):
                v = rbytes(rng, s); data += v; vals.append(Buf(v))
    f = ""
    for x in fmt:
        sep = rng.choice(("", "", " ", "  "))
        if f and f[-1].isdigit() and x[0].isdigit() and not sep: sep = " "
        f += sep + x
    need = len(data)
    last = rng.random()
    if last < 0.2:
        v = rng.choice(STR[:7]); data += v.encode(); vals.append(v); f += " s"
        need = len(data) - len(v.encode())
    else:
        data += rbytes(rng, rng.choice((0, 0, 1, 5)))
    return f, pos, bytes(data), vals, need

def formats(c, n):
    rng = c.rng
    out = []
    for _ in range(n):
        k = rng.randrange(10)
        if k < 3:
            f, a, d = gen_pack(rng)
            al = [klit(x) for x in a]
            if rng.random() < 0.3: al = ["[" + ", ".join(al) + "]"]
            out.append(("return buffer().pack(%s)" % ", ".join([klit(f)] + al), d))
        elif k < 4:
            f, a, d = gen_pack(rng)
            if not a: continue
            # one value too few
            out.append(("return buffer().pack(%s)" % ", ".join([klit(f)] + [klit(x) for x in a[:-1]]), EXC))
        elif k < 7:
            f, p, d, v, need = gen_unpack(rng)
            out.append(("return %s.unpack(%s%s)" % (klit(d), klit(f), "" if p == 0 and rng.random() < 0.5 else ", %d" % p), v))
            if need > p and need > 0:
                out.append(("return %s.unpack(%s, %d)" % (klit(d[:need - 1]), klit(f), p), EXC if need - 1 >= p else EXC))
        elif k < 8:
            # values unpacked are the values packed
            f, a, d = gen_pack(rng)
            out.append(("return buffer([9]).pack(%s)[1:]" % ", ".join([klit(f)] + [klit(x) for x in a]), d))
        elif k < 9:
            # sizes and counts that cannot be satisfied, up to arithmetic overflow of their product
            big = rng.choice((1 << 28, 1 << 29, 1 << 30, (1 << 30) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 8, 715827883, 858993460, 429496729, 4294967289,
                              4294967296, 4294967297, 1 << 40, 10 ** 30))
            ch = rng.choice(("u1", "u2", "u4", "u8", "i2", "f4", "f8", "s3", "b5", "x", "s1073741825", "b1073741825", "s2147483649", "b1431655766"))
            f = rng.choice(("%d%s" % (big, ch), "3x %d%s" % (big, ch), "%d%s u1" % (big, ch), "%d s%d" % (rng.choice((2, 3, 4, 5, 8)), big), "%d b%d" % (rng.choice((2, 3, 4, 5, 8)), big)))
            d = rbytes(rng, rng.choice((0, 1, 3, 8, 40)))
            out.append(("return %s.unpack(%s, %d)" % (klit(d), klit(f), rng.choice((0, 0, 1, 5))), EXC))
            if " s" in f or " b" in f or "u" in f:
                vals = ["\"%s\"" % ("q" * rng.randrange(30))] * 9 if "s" in f else ["buffer(%d)" % rng.randrange(30)] * 9 if "b" in f else ["1"] * rng.choice((1, 9))
                if "3x" not in f: out.append(("return buffer().pack(%s, %s).size" % (klit(f), ", ".join(vals)), EXC))
        else:
            f = "".join(rng.choice("uifsbx<>0123456789 ?zé") for _ in range(rng.randrange(1, 8)))
            d = rbytes(rng, 8)
            bad = any(ch in f for ch in "?zé") or f.rstrip()[-1:].isdigit() and not any(c in f for c in "uifsbx")
            out.append(("return TRY(() => %s.unpack(%s)) != 5" % (klit(d), klit(f)), True))
            out.append(("return TRY(() => buffer().pack(%s, [1, 2, 3])) != 5" % klit(f), True))
            if bad and not any(len(t) > 6 for t in f.split()): out.append(("return %s.unpack(%s)" % (klit(d), klit(f)), EXC))
    return out

def ctors(c, n):
    rng = c.rng
    out = []
    for _ in range(n):
        k = rng.randrange(5)
        if k == 0:
            s, v = rng.choice((0, 1, 5, 100, 1000)), rng.randrange(256)
            out.append(("return buffer(%d, %d)" % (s, v), bytes([v]) * s))
        elif k == 1:
            out.append(("return " + rng.choice(("buffer(-1)", "buffer(1 << 40)", "buffer(1, 256)", "buffer(1, -1)", "buffer([256])", "buffer([-1])", "buffer([void])",
                                                "buffer([\"a\"])", "buffer(GEN([1, 300]))", "buffer(x => x)", "buffer(void)", "buffer(3).resize(-1)", "buffer(3).resize(5, 256)",
                                                "buffer(3).resize(1 << 40)", "buffer(3).fill(256)", "buffer(3).fill(-1)", "buffer(3).fill(\"a\")", "buffer(3)[\"a\"]", "buffer(3)[3]",
                                                "buffer(3)[-4]", "buffer(1).copy_buffer(0, [1])", "buffer(1).copy_buffer(0, \"a\")", "buffer(1).insert(0, [256])",
                                                "buffer(1).insert(0, [\"a\"])", "buffer(1).unpack(1)", "buffer(4).unpack(\"u4\", \"a\")", "buffer().pack()", "buffer().pack(1)")), EXC))
        elif k == 2:
            b = rbytes(rng, rng.choice((0, 1, 100, 511, 512, 513, 5000)))
            l = "buffer([%s])" % ",".join(map(str, b)) if len(b) < 200 else "buffer(%d, %d)" % (len(b), 7)
            if len(b) >= 200: b = b"\x07" * len(b)
            out.append(("const b = %s\nconst d = buffer(b)\nd.resize(d.size + 3, 9)\nreturn [b.size, d]" % l, [len(b), b + b"\x09\x09\x09"]))
        elif k == 3:
            n_ = rng.choice((1, 10, 300, 3000))
            out.append(("const b = buffer()\nfor const i in range(%d) { b.resize(b.size + 1, i & 255) }\nreturn b" % n_, bytes(i & 255 for i in range(n_))))
        else:
            n_ = rng.choice((1, 10, 300))
            out.append(("const b = buffer()\nfor const i in range(%d) { b.insert(b.size >> 1, [i & 255]) }\nreturn b" % n_, ins(n_)))
    return out

def ins(n):
    b = bytearray()
    for i in range(n): b[len(b) >> 1:len(b) >> 1] = bytes([i & 255])
    return bytes(b)

def check(c):
    b = vlib.build("asan")
    cases = []
    ops = 0
    for _ in range(c.n(2000, 30000)):
        h = Hist(c.rng)
        for _ in range(c.rng.randrange(4, 40)):
            if sum(map(len, h.b)) > 800: break
            h.step(); ops += 1
        cases.append(h.code())
    c.stat("buffer operations checked", ops)
    for code, e in cases[:2]: c.sample(code[:500])
    kmodel.run_cases(c, b, cases, batch=40, prelude=PRE, label="buffer history")
    kmodel.run_cases(c, b, formats(c, c.n(12000, 150000)), batch=200, prelude=PRE, label="pack/unpack")
    kmodel.run_cases(c, b, ctors(c, c.n(1000, 8000)), batch=100, prelude=PRE, label="buffer functions")

if __name__ == "__main__": vlib.main(check, "C11", rule="random histories over two buffers (each result and final bytes against a bytearray model) and random pack/unpack formats, "
          "including counts and sizes whose product overflows; non-trivial: distinct program",
          assumptions=["Python struct and UTF-8 codec define the binary encodings"])
