"""C12: conversions between text and values: UTF-8, numbers, printed representation."""
import sys, os, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, AnyOf, klit, IMIN, IMAX, wrap

def bits(x):
    u = struct.unpack(">q", struct.pack(">d", x))[0]
    return u if u >= 0 else -(u & (2**63 - 1))
def unbits(u):
    return struct.unpack(">d", struct.pack(">Q", u if u >= 0 else (-u) | 1 << 63))[0]

def utf8(code):
    if code < 0x80: return bytes([code])
    if code < 0x800: return bytes([0xC0 | code >> 6, 0x80 | code & 63])
    if code < 0x10000: return bytes([0xE0 | code >> 12, 0x80 | code >> 6 & 63, 0x80 | code & 63])
    return bytes([0xF0 | code >> 18, 0x80 | code >> 12 & 63, 0x80 | code >> 6 & 63, 0x80 | code & 63])

EDGE = [0, 1, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x100000, 0x10ffff]
def rcodes(rng, valid=False):
    top = rng.choice((0x7f, 0x7f, 0xff, 0xffff, 0x10ffff))
    n = rng.choice((0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33))
    r = []
    for _ in range(n):
        c = rng.choice([e for e in EDGE if e <= top]) if rng.random() < 0.4 else rng.randrange(min(top + 1, rng.choice((0x80, 0x800, 0x10000, 0x110000))))
        if 0xd800 <= c < 0xe000: c = 0x41
        r.append(c)
    return r

def cases_utf8(rng, n):
    out = []
    for _ in range(n):
        codes = rcodes(rng); enc = b"".join(map(utf8, codes)); s = "".join(map(chr, codes))
        k = rng.randrange(6)
        if k == 0: out.append(("return buffer(string(%s))" % klit(codes), enc))
        elif k == 1: out.append(("return string(%s)" % klit(enc), s))
        elif k == 2:
            pre = rng.randrange(9)
            out.append(("return string(%s[%d:])" % (klit(bytes(pre) + enc), pre), s))
        elif k == 3:
            # the same characters as a source literal, raw or escaped
            lit = []
            for c in codes:
                if c in (0x22, 0x5c) or c < 32 or rng.random() < 0.3:
                    lit.append(rng.choice(("\\x{%x}", "\\x{%X}", "\\x{0%x}" if c < 0x100000 else "\\x{%x}")) % c if c > 255 or rng.random() < 0.5 else "\\x%02x" % c)
                else: lit.append(chr(c))
            out.append(('return "%s"' % "".join(lit), s))
        elif k == 4 and codes:
            # damage it: the result is an exception
            bad = bytearray(enc)
            m = rng.randrange(4)
            starts = []; p = 0
            for c in codes:
                l = len(utf8(c)); starts.append((p, l)); p += l
            p, l = rng.choice(starts)
            if m == 0: bad[p:p] = bytes([rng.randrange(0x80, 0xc0)])               # stray continuation
            elif m == 1: bad[p:p] = bytes([rng.randrange(0xf8, 0x100)])            # no such lead byte
            elif m == 2:
                if l == 1: bad[p:p] = bytes([rng.choice((0xc3, 0xe1, 0xf1))])      # lead byte without continuation
                else: del bad[p + l - 1]
            else:
                lead = rng.choice((b"\xc3", b"\xe1\x80", b"\xf1\x80\x80", b"\xf1\x80", b"\xe1"))
                bad += lead                                                       # truncated at the end
            out.append(("return string(%s)" % klit(bytes(bad)), EXC))
        else:
            b2 = [rng.randrange(256) for _ in range(rng.choice((1, 2, 3)))]
            b = bytes(b2)
            # every decoded text encodes back to the same bytes, unless the input was overlong
            try: exp = b.decode("utf-8", "surrogatepass")
            except UnicodeDecodeError:
                # Kos also accepts code points up to 0x1FFFFF and 3- and 4-byte overlong forms
                if b[:1] in (b"\xe0",) or b[0] >= 0xf0: continue
                exp = EXC
            else:
                if any(0xd800 <= ord(c) < 0xe000 for c in exp): continue
            out.append(("return string(%s)" % klit(b), exp))
    return out

def rdigits(rng, n, alpha="0123456789"):
    s = "".join(rng.choice(alpha) for _ in range(n))
    return s
def under(rng, s):
    if rng.random() < 0.25 and len(s) > 1:
        i = rng.randrange(1, len(s)); s = s[:i] + "_" * rng.choice((1, 1, 2)) + s[i:]
    return s

def cases_int(rng, n):
    out = []
    for _ in range(n):
        k = rng.randrange(7)
        if k <= 1:
            v = rng.choice((0, 1, -1, IMAX, IMIN, IMAX - 1, IMIN + 1, 1 << 53, (1 << 62), -(1 << 62), 1 << 61, (1 << 61) - 1, -(1 << 61) - 1, 10**18, -10**18)) if rng.random() < 0.4 else wrap(rng.getrandbits(rng.choice((8, 16, 32, 48, 63, 64))))
            if rng.random() < 0.3: v = -v if v != IMIN else v
            e = klit(v)
            t = rng.choice(("stringify(OPAQUE(%s))", "string(OPAQUE(%s))", '"\\(OPAQUE(%s))"', "stringify(%s)", '"\\(%s)"', "stringify([%s])[1:-1]"))
            out.append(("return " + t % e, str(v)))
            out.append(("return integer(stringify(OPAQUE(%s)))" % e, v))
        elif k == 2:
            v = rng.choice((IMAX, -IMAX, IMIN, 10**18, 9999999999999999999)) if rng.random() < 0.3 else int(rdigits(rng, rng.randrange(1, 22)))
            v += rng.choice((-1, 0, 1))
            sg = rng.choice(("", "", "+", "-"))
            if v < 0: v = -v; sg = "-"
            val = -v if sg == "-" else v
            t = sg + "0" * rng.choice((0, 0, 1, 3)) + under(rng, str(v))
            out.append(("return %s(OPAQUE(\"%s\"))" % (rng.choice(("integer", "number")), t), val if IMIN <= val <= IMAX else EXC))
        elif k == 3:
            d = rdigits(rng, rng.randrange(1, 18), "0123456789abcdefABCDEF"); v = int(d, 16)
            t = rng.choice(("0x", "0X")) + under(rng, d)
            if v >> 64: continue
            out.append(("return %s(OPAQUE(\"%s\"))" % (rng.choice(("integer", "number")), t), wrap(v)))
            if rng.random() < 0.5: out.append(("return " + t, wrap(v)))
        elif k == 4:
            d = rdigits(rng, rng.choice((1, 2, 8, 31, 32, 33, 63)), "01"); v = int(d, 2)
            t = rng.choice(("0b", "0B")) + under(rng, d)
            out.append(("return %s(OPAQUE(\"%s\"))" % (rng.choice(("integer", "number")), t), v))
            if rng.random() < 0.5: out.append(("return " + t, v))
        elif k == 5:
            t = rng.choice(("", "-", "+", "x", "0x", "0b", "12a", "1 2", " 1", "1 ", "--1", "+-1", "0xg", "0b2", "1.5", "1e3", "0x1.8", "٣", "\\x{0}1", "1\\x{0}", "９", "void", "0b102", "- 1"))
            out.append(("return integer(OPAQUE(\"%s\"))" % t, EXC))
        else:
            v = rng.randrange(10**rng.randrange(1, 19)); t = under(rng, str(v))
            out.append(("return " + t, v))
    return out

def near(x, ulps=1):
    if x == 0: return AnyOf(0.0, -0.0)
    b = bits(x)
    return AnyOf(*[unbits(b + d) for d in range(-ulps, ulps + 1) if abs(b + d) < 0x7ff0000000000000])

def rfloat(rng):
    k = rng.randrange(5)
    if k == 0:
        while True:
            x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
            if x == x and not math.isinf(x): return x
    if k == 1: return rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 30)
    if k == 2: return float(rng.randrange(-10**rng.randrange(1, 16), 10**15))
    if k == 3: return rng.randrange(-10**9, 10**9) / 2.0 ** rng.randrange(1, 20)
    return rng.choice((0.0, 1.0, -1.0, 0.5, 1e15, 1e16, 1e21, 1e22, 1e29, 9.9e29, 1e30, 1.1e30, 1e31, -1e31, 1e100, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308,
                       2.0**53, 2.0**63, 2.0**64, 0.1, 0.2, 0.3, 1/3.0, 123456.789, 1e-5, 1e-10, 1e-14, 5e-15, 99999999999999.99, 0.999999999999999))

def cases_float(rng, n):
    out = []
    for _ in range(n):
        k = rng.randrange(7)
        if k == 6:
            # both ends of the range: denormalized numbers, the smallest normalized one, the largest
            t = rng.choice(("2.22507385850720%02de-308" % rng.randrange(100), "2.2250738585072%dE-308" % rng.randrange(10**9), "%d.%de-%d" % (rng.randrange(1, 10), rng.randrange(10**15), rng.randrange(290, 323)),
                            "%de-%d" % (rng.randrange(10**rng.randrange(1, 18)), rng.randrange(300, 325)), "4.95e-324", "1.%de308" % rng.randrange(7976931348623157), "1.7976931348623159e308", "17976931348623159%s.0" % ("0" * 292), "1.8e308", "-1.7976931348623159e+308"))
            x = float(t)
            out.append(("return float(OPAQUE(\"%s\"))" % t, EXC if math.isinf(x) else near(x)))
            continue
        if k == 0:
            d1 = rdigits(rng, rng.randrange(1, rng.choice((3, 10, 17, 30)))); d2 = rdigits(rng, rng.randrange(1, rng.choice((3, 10, 17, 30))))
            e = rng.choice(("", "", "e%d" % rng.randrange(-40, 40), "E+%d" % rng.randrange(0, 30), "e%d" % rng.randrange(-250, 250)))
            t = rng.choice(("", "-", "+")) + d1 + "." + d2 + e
            x = float(t)
            if x and not 1e-290 < abs(x) < 1e305: continue
            t2 = t if "e" in t or "E" in t else t.replace(d2, under(rng, d2)) if rng.random() < 0.2 else t
            out.append(("return %s(OPAQUE(\"%s\"))" % (rng.choice(("float", "number")), t2), near(x)))
            if rng.random() < 0.4 and not t.startswith("+") and (len(d1) == 1 or d1[0] != "0"): out.append(("return " + t, near(x)))
        elif k == 1:
            v = rng.randrange(-2**53, 2**53) if rng.random() < 0.6 else rng.randrange(-10**6, 10**6)
            out.append(("return float(OPAQUE(\"%d%s\"))" % (v, rng.choice((".0", ".", "", "e0", "0e-1"))), float(v) if v or not str(v).startswith("-") else AnyOf(0.0, -0.0)))
        elif k == 2:
            t = rng.choice(("", "-", "+", "e", "e5", "1e", "1e+", "1e-", "1.2.3", "1.5x", "x1.5", " 1.5", "1.5 ", "1e1.5", "1e400", "1e-400", "1e309", "nan", "inf", "infinity", "1,5", "1.5f", "--1.5", "\\x{0}1.5", "1.\\x{0}5", "9.9e308", "1e2e3"))
            if t in ("e", "e5"): continue
            out.append(("return float(OPAQUE(\"%s\"))" % t, EXC))
        elif k == 3:
            # the printed form reads back as the value, to the 15 decimals printed
            x = rfloat(rng)
            out.append(("const x = OPAQUE(%s); const t = %s; const y = float(t); const d = y > x ? y - x : x - y; const m = x < 0 ? -x : x; return [(d <= 0.0000000000000006) || (d <= (m * 0.0000000000000005)), typeof number(t)]" %
                        (klit(x), rng.choice(("stringify(x)", "string(x)", '"\\(x)"', "stringify([x])[1:-1]"))), [True, "float"]))
        elif k == 4:
            x = rfloat(rng)
            out.append(("const x = OPAQUE(%s); return [stringify(x) == string(x), \"\\(x)\" == string(x), \"<\\(x)>\" == (\"<\" + string(x) + \">\"), stringify([x]) == (\"[\" + string(x) + \"]\")]" % klit(x), [True] * 4))
        else:
            m = rng.randrange(1, 10**rng.randrange(1, 9)); d = 0
            x = m / 10.0**d
            exp = ("%d.%0*d" % (m // 10**d, d, m % 10**d)).rstrip("0") if d else "%d." % m
            if exp.endswith("."): exp += "0"
            if d == 0: out.append(("return stringify(OPAQUE(%s))" % klit(x), exp))
    for a, t in ((float("inf"), "infinity"), (float("-inf"), "-infinity"), (float("nan"), "nan")):
        out.append(("return string(OPAQUE(%s))" % klit(a), t))
    return out

def rval(rng, d):
    k = rng.randrange(12)
    if d and k <= 3: return [rval(rng, d - 1) for _ in range(rng.randrange(4))]
    if d and k <= 6:
        o = {}
        for _ in range(rng.randrange(4)): o["".join(map(chr, rcodes(rng)[:6]))] = rval(rng, d - 1)
        return o
    if k == 7: return rng.choice((None, True, False))
    if k == 8: return rng.randrange(-10**12, 10**12) / 8.0
    if k <= 10: return "".join(map(chr, rcodes(rng)))
    return wrap(rng.getrandbits(64)) if rng.random() < 0.5 else rng.randrange(-100, 100)

def floaty(v):
    if isinstance(v, float): return True
    if isinstance(v, list): return any(map(floaty, v))
    if isinstance(v, dict): return any(map(floaty, v.values()))
    return False

def check(c):
    b = vlib.build("asan")
    rng = c.rng
    kmodel.run_cases(c, b, cases_utf8(rng, c.n(8000, 100000)), 150, label="UTF-8")
    kmodel.run_cases(c, b, cases_int(rng, c.n(5000, 60000)), 150, label="integer text")
    kmodel.run_cases(c, b, cases_float(rng, c.n(10000, 150000)), 150, label="float text")
    # printed structures, read back as source text
    vals = [[rval(rng, 3) for _ in range(rng.randrange(1, 3))] for _ in range(c.n(2000, 30000))]
    vals = [v for v in vals if len(klit(v)) < 6000]
    B = 50
    def go(vs):
        head = "import base.*\nfun FB(n) { const b = buffer(8); for const i in range(8) { b[i] = (n >>> (i * 8)) & 255 }; return b.unpack(\"f8\")[0] }\n"
        src = head + "".join("const v%d = %s\nprint(%s)\n" % (i, klit(v), "v%d" % i if i % 2 else 'string("\\(v%d)")' % i) for i, v in enumerate(vs))
        r = vlib.run_script(b, src)
        if r.rc or r.abnormal(): return vs, src, r, None
        texts = r.text().split("\n")[:-1]
        return vs, src, r, texts
    pairs = []
    for vs, src, r, texts in vlib.pmap(go, [vals[i:i+B] for i in range(0, len(vals), B)]):
        if texts is None or len(texts) != len(vs):
            c.violation("printing values: exit %d %s, %s lines of %d\n%s" % (r.rc, r.abnormal() or "", len(texts or []), len(vs), r.etext()[:2000]), {"print.kos": src}); continue
        pairs += list(zip(vs, texts))
        for v in vs: c.stat("structures printed and read back")
    cases = []
    for v, t in pairs:
        # an integer literal cannot spell the smallest integer
        if "-9223372036854775808" in t: t = t.replace("-9223372036854775808", "(-9223372036854775807-1)")
        cases.append(("return " + t, v))
    kmodel.run_cases(c, b, cases, 60, label="printed text read back as source")
    # bytes on standard output and in arguments are the UTF-8 of the text
    def pr(i):
        rg = __import__("random").Random(c.seed * 1000 + i)
        strs = [s for s in ("".join(map(chr, rcodes(rg))) for _ in range(40)) if "\0" not in s]
        strs = [s for s in strs if "\n" not in s and "\r" not in s]
        src = "import base.*\n" + "".join("print(%s)\n" % klit(s) for s in strs) + "for const a in args[1:] { print(a) }\n"
        r = vlib.run_script(b, src, args=strs[:10])
        exp = "".join(s + "\n" for s in strs + strs[:10]).encode()
        return strs, src, r, exp
    for strs, src, r, exp in vlib.pmap(pr, range(c.n(40, 300))):
        c.case(("print", tuple(strs))); c.stat("strings printed", len(strs))
        if r.rc or r.abnormal() or r.out != exp:
            c.violation("printed bytes or program arguments differ from the UTF-8 of the text: exit %d %s %s" % (r.rc, r.abnormal() or "", r.etext()[:1500]), {"print.kos": src, "expected.bin": exp, "got.bin": r.out})

if __name__ == "__main__": vlib.main(check, "C12", rule="generated byte sequences, number texts, values and structures converted by the real interpreter and compared with an independent UTF-8 codec, "
          "exact integer and correctly rounded float arithmetic, and by reading the printed text back as source; non-trivial: distinct case",
          assumptions=["float texts are converted to within one unit in the last place, as the implementation does not promise correct rounding"])
