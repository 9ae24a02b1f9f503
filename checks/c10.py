"""C10: strings behave as sequences of code points whatever their internal representation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit

WS = " \r\n\t\f\v\xA0\u2028\u2029\uFEFF"
EOL = "\n\r\v\f\x1C\x1D\x1E\x85\u2028\u2029"
PRE = '''
fun GEN(a) { for const x in a { yield x } }
fun TRY(f)
{
    try { return f() }
    catch const e { return "EXC!" }
}
'''
ALPH = [list("ab"), list("abcAB z"), list("abcdefghijklmnopqrstuvwxyzABCXYZ0189 _-+"), list("a\x80\xff b"), list("aé\xa0ü"),
        list("aż\u0100\u20ac"), list("\u0101\u0102\u0201a"), list("a\ud7ff\ue000\uffff"), list("a\U0001f600\U00010000"),
        list("aż\U0001f600\xe9"), [chr(0x61), chr(0x161), chr(0x10161), chr(0x10061)], [chr(x) for x in (0, 1, 10, 13, 9, 32, 0x85, 0x2028, 0x2029, 0xfeff, 0xa0, 0x1c)] + ["x"],
        [chr(0x100), chr(0x1), chr(0x10001), chr(0x10100)]]

def rstr(rng, al=None, maxlen=None):
    al = al or rng.choice(ALPH)
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17)) if maxlen is None else rng.randrange(maxlen + 1)
    if maxlen is None and rng.random() < 0.05: n = rng.choice((31, 32, 33, 63, 64, 65, 100, 257))
    s = [rng.choice(al) for _ in range(n)]
    if rng.random() < 0.2 and n:
        s[rng.randrange(n)] = rng.choice(rng.choice(ALPH))
    return "".join(s)

def mk(rng, s, depth=1):
    """An expression for s, through one of the ways a string can come about."""
    k = rng.randrange(14)
    lit = klit(s)
    if depth == 0 or k <= 2: return lit
    if k == 3: return "OPAQUE(%s)" % lit
    if k == 4:   # slice of something wider
        w = rng.choice(("\u0100", "\U0001f600", "x", "\xff"))
        pre, post = w * rng.randrange(3), w * rng.randrange(3)
        return "(%s)[%d:%d]" % (klit(pre + s + post), len(pre), len(pre) + len(s))
    if k == 5: return "%s.reverse()" % klit(s[::-1])
    if k == 6:
        i = rng.randrange(len(s) + 1)
        return "(OPAQUE(%s) + OPAQUE(%s))" % (mk(rng, s[:i], 0), mk(rng, s[i:], 0))
    if k == 7 and len(s) < 40: return "string([%s])" % ", ".join(str(ord(c)) for c in s)
    if k == 8 and len(s) < 40 and not any(0xd800 <= ord(c) < 0xe000 for c in s): return "string(%s)" % klit(s.encode("utf-8"))
    if k == 9:
        i = rng.randrange(len(s) + 1); j = rng.randrange(i, len(s) + 1)
        return "string(%s, %s, %s)" % (klit(s[:i]), klit(s[i:j]), klit(s[j:]))
    if k == 10: return '"\\(%s)"' % klit(s) if '"' not in s else lit
    if k == 11:  # slice of a slice
        return '(%s)[1:][%d:][:%d]' % (klit("q" + "\u20ac" * 3 + s + "zz"), 3, len(s))
    if k == 12 and s and s == s[0] * len(s): return "%s.repeats(%d)" % (klit(s[0]), len(s))
    if k == 13 and len(s) < 40: return "string(GEN(%s))" % klit(list(s))
    return lit

def mkslice(rng, s):
    """s as a slice at some offset of a freshly built string."""
    w = rng.choice(("x", s[:1] or "y", "\u0100", "\U0001f600"))
    pre, post = w * rng.randrange(8), w * rng.randrange(3)
    i = rng.randrange(1, len(s) + 1)
    return "(OPAQUE(%s) + %s)[%d:%d]" % (klit(pre + s[:i]), klit(s[i:] + post), len(pre), len(pre) + len(s))

def near(rng, s):
    """s with one code point changed, sharing some of its bytes when possible."""
    i = rng.choice((rng.randrange(len(s)), rng.randrange(min(4, len(s))), len(s) - 1))
    c = ord(s[i])
    d = rng.choice((c ^ 0x100, c ^ 0x1, c ^ 0x10000, c ^ 0x300, c ^ 0x101, c ^ 0x20000, c + 1))
    if d > 0x10ffff or 0xd800 <= d < 0xe000: d = 0x61
    r = s[:i] + chr(d) + s[i + 1:]
    if rng.random() < 0.3 and i + 1 < len(r): r = r[:i + 1] + rng.choice(rng.choice(ALPH)) + r[i + 2:]
    return r

def idx(rng, n):
    if rng.random() < 0.2:
        return rng.choice((1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32), -(1 << 31), (1 << 63) - 1, -(1 << 63), n + 1, -n - 1, n + 100))
    return rng.randrange(-n - 1, n + 2)

def fix(i, n):
    if i < 0: i += n
    return max(0, min(i, n))

def sub(rng, s):
    """A pattern likely to be present, or nearly."""
    if s and rng.random() < 0.7:
        i = rng.randrange(len(s)); j = min(len(s), i + rng.randrange(1, 5))
        p = s[i:j]
        if rng.random() < 0.3:
            q = list(p); q[rng.randrange(len(q))] = rng.choice(rng.choice(ALPH)); p = "".join(q)
        return p
    return rstr(rng, maxlen=3)

def split_ref(s, sep, mx):
    if mx == 0: return []
    if sep is None:
        # the last part keeps the rest of the string
        out, pos, n = [], 0, len(s)
        def skip(p, inc):
            while p < n and (s[p] in WS) != inc: p += 1
            return p if p < n else -1
        pos = skip(0, False)
        if pos == -1: return []
        while mx < 0 or len(out) < mx - 1:
            e = skip(pos, True)
            if e == -1:
                out.append(s[pos:]); return out
            out.append(s[pos:e])
            pos = skip(e, False)
            if pos == -1: return out
        out.append(s[pos:])
        return out
    return s.split(sep) if mx < 0 else s.split(sep, mx - 1)

def lines_ref(s, keep):
    out, pos, n = [], 0, len(s)
    while pos < n:
        e = pos
        while e < n and s[e] not in EOL: e += 1
        if e == n:
            out.append(s[pos:]); break
        w = 2 if s[e] == "\r" and e + 1 < n and s[e + 1] == "\n" else 1
        out.append(s[pos:e + w] if keep else s[pos:e])
        pos = e + w
    return out

def lower(s): return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
def upper(s): return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
CASELESS = [c for al in ALPH for c in al if ord(c) < 128 or ord(c) in (0x20ac, 0x1f600, 0x2028, 0xa0, 0xd7ff, 0xe000)]

def one(rng):
    s = rstr(rng)
    n = len(s)
    S = mk(rng, s)
    op = rng.randrange(27)
    if op >= 25:
        # long strings that differ in one place, at all alignments
        al = rng.choice(ALPH)
        s = "".join(rng.choice(al) for _ in range(rng.randrange(5, 70)))
        t = s if rng.random() < 0.2 else near(rng, s)
        S, T = mkslice(rng, s), mkslice(rng, t)
        if rng.random() < 0.25:
            pre = "".join(rng.choice(al) for _ in range(rng.randrange(9)))
            h = pre + near(rng, s) + s + pre
            return "%s.find(%s)" % (mkslice(rng, h), S), h.find(s)
        o = rng.choice(("==", "!=", "<", "<=", ">", ">="))
        e = {"==": s == t, "!=": s != t, "<": s < t, "<=": s <= t, ">": s > t, ">=": s >= t}[o]
        return "%s %s %s" % (S, o, T), e
    if op <= 2:
        p = sub(rng, s)
        if not p: p = "a"
        P = mk(rng, p)
        k = rng.randrange(4)
        if k == 0: return "%s.find(%s)" % (S, P), s.find(p)
        if k == 1: return "%s.rfind(%s)" % (S, P), s.rfind(p)
        i = idx(rng, n)
        if k == 2: return "%s.find(%s, %s)" % (S, P, klit(i)), s.find(p, fix(i, n))
        j = min(i + n if i < 0 else i, n)
        return "%s.rfind(%s, %s)" % (S, P, klit(i)), (s.rfind(p, 0, j + len(p)) if j >= 0 else -1)
    if op <= 4:
        ch = sub(rng, s) + rstr(rng, maxlen=2)
        if not ch: ch = "b"
        C = mk(rng, ch)
        inc = rng.random() < 0.5
        i = idx(rng, n)
        if rng.random() < 0.5:
            j = fix(i, n)
            r = next((x for x in range(j, n) if (s[x] in ch) == inc), -1)
            return "%s.scan(%s, %s, %s)" % (S, C, klit(i), klit(inc)), r
        if rng.random() < 0.3:
            j, a = n - 1, "void"
        else:
            j, a = min(i + n if i < 0 else i, n - 1), klit(i)
        r = next((x for x in range(j, -1, -1) if (s[x] in ch) == inc), -1)
        return "%s.rscan(%s, %s, %s)" % (S, C, a, klit(inc)), r
    if op <= 6:
        p, q = (None if rng.random() < 0.15 else idx(rng, n) for _ in "xx")
        b = 0 if p is None else fix(p, n); e = n if q is None else fix(q, n)
        f = "%s.slice(%s, %s)" if rng.random() < 0.5 else "%s[%s:%s]"
        return f % (S, klit(p), klit(q)), s[b:max(b, e)]
    if op == 7:
        i = idx(rng, n); j = i + n if i < 0 else i
        k = rng.randrange(3)
        ok = 0 <= j < n
        if k == 0: return "TRY(() => %s[%s])" % (S, klit(i)), s[j] if ok else "EXC!"
        if k == 1: return "TRY(() => %s.code(%s))" % (S, klit(i)), ord(s[j]) if ok else "EXC!"
        return "%s.get(%s, 5)" % (S, klit(i)), s[j] if ok else 5
    if op <= 10:
        # comparisons between equal, prefixed or slightly different strings
        k = rng.randrange(4)
        t = s if k == 0 else s[:rng.randrange(n + 1)] + rstr(rng, maxlen=2) if k < 3 else rstr(rng)
        T = mk(rng, t)
        o = rng.choice(("==", "!=", "<", "<=", ">", ">="))
        e = {"==": s == t, "!=": s != t, "<": s < t, "<=": s <= t, ">": s > t, ">=": s >= t}[o]
        return "(%s) %s (%s)" % (S, o, T), e
    if op == 11:
        parts = [rstr(rng) for _ in range(rng.randrange(2, 5))]
        k = rng.randrange(3)
        if k == 0: return " + ".join("(%s)" % mk(rng, x) for x in parts), "".join(parts)
        if k == 1: return "string(%s)" % ", ".join(mk(rng, x) for x in parts), "".join(parts)
        return "stringify(%s)" % ", ".join(mk(rng, x) for x in parts), "".join(parts)
    if op == 12:
        k = rng.choice((0, 1, 2, 3, 7, 2.5, 2.0, -1))
        return ("TRY(() => %s.repeats(%s))" % (S, repr(k) if not isinstance(k, int) or k >= 0 else "(-1)")), (s * int(k) if k >= 0 else "EXC!")
    if op == 13: return "%s.reverse()" % S, s[::-1]
    if op == 14:
        p = rng.choice((sub(rng, s), s[:rng.randrange(n + 1)], s[rng.randrange(n + 1):], ""))
        if rng.random() < 0.5: return "%s.starts_with(%s)" % (S, mk(rng, p)), s.startswith(p)
        return "%s.ends_with(%s)" % (S, mk(rng, p)), s.endswith(p)
    if op == 15:
        s = rstr(rng, CASELESS); s = "".join(c for c in s if c in CASELESS)
        if rng.random() < 0.5: return "%s.lowercase()" % mk(rng, s), lower(s)
        return "%s.uppercase()" % mk(rng, s), upper(s)
    if op == 16:
        w = rng.choice((0, n - 1, n, n + 1, n + 7, n + 40)); w = max(w, 0)
        f = rng.choice((" ", "0", "ż", "\U0001f600"))
        k = rng.randrange(3)
        if k == 0: return "%s.ljust(%d, %s)" % (S, w, klit(f)), s + f * max(0, w - n)
        if k == 1: return "%s.rjust(%d, %s)" % (S, w, klit(f)), f * max(0, w - n) + s
        s = rng.choice(("", "+", "-", "1", "x")) + s; n = len(s)
        z = f * max(0, w - n)
        return "%s.zfill(%d, %s)" % (mk(rng, s), w, klit(f)), (s[0] + z + s[1:] if s[:1] in ("+", "-") else z + s)
    if op == 17:
        s = rstr(rng, list(WS) + ["a", "ż", "\U0001f600"])
        S = mk(rng, s)
        k = rng.randrange(6)
        if k < 3: return S + (".strip()", ".lstrip()", ".rstrip()")[k], (s.strip(WS), s.lstrip(WS), s.rstrip(WS))[k]
        ch = rng.choice(("a", "ab", "ża", " ", "\U0001f600", "a\u2028"))
        return S + (".strip(%s)", ".lstrip(%s)", ".rstrip(%s)")[k - 3] % klit(ch), (s.strip(ch), s.lstrip(ch), s.rstrip(ch))[k - 3]
    if op == 18:
        s = rstr(rng, list(WS)[:rng.randrange(1, 10)] + ["a", "b", "ż", "\U0001f600"])
        mx = rng.choice((-1, -1, 0, 1, 2, 3, 10))
        return "[%s.split(void, %d)...]" % (mk(rng, s), mx), split_ref(s, None, mx)
    if op == 19:
        sep = rng.choice((rstr(rng, maxlen=3) or "a", sub(rng, s) or ","))
        mx = rng.choice((-1, -1, 0, 1, 2, 3, 10))
        return "[%s.split(%s, %d)...]" % (S, mk(rng, sep), mx), split_ref(s, sep, mx)
    if op == 20:
        s = rstr(rng, list(EOL)[:rng.randrange(2, 10)] + ["a", "b", "ż"])
        keep = rng.random() < 0.5
        return "[%s.split_lines(%s)...]" % (mk(rng, s), klit(keep)), lines_ref(s, keep)
    if op == 21: return "[%s...]" % S, list(s)
    if op == 22: return "array(%s)" % S, [ord(c) for c in s]
    if op == 23: return "[%s.size, %s.ascii]" % (S, mk(rng, s)), [n, all(ord(c) < 128 for c in s)]
    # strings as keys: equal contents are the same key, others are not
    t = s if rng.random() < 0.5 else s[:-1] + rstr(rng, maxlen=1)
    return "fun { const o = {}; o[%s] = 1; o[%s] = 2; return [o[%s], %s in o, [shallow(o)...].size] } ()" % (
        S, mk(rng, t), mk(rng, s), mk(rng, t)), [2 if s == t else 1, True, 1 if s == t else 2]

def big(c):
    """At and beyond the maximum length (65535) a result is either right or refused."""
    out = []
    A = kmodel.AnyOf
    for n in (1000, 21845, 30000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 200000):
        for w in ("a", "\xff", "ż", "\U0001f600", "ab\u20ac"):
            e = [len(w) * n, w[-1], True]
            out.append(("const s = %s.repeats(%d)\nreturn [s.size, s.reverse()[0], s == s[:]]" % (klit(w), n), e if len(w) * n < 65534 else A(e, EXC)))
            h = n // 2
            if len(w) * h < 65534:
                e = [len(w) * (n - h) + len(w) * h, w[0], True]
                out.append(("const s = %s.repeats(%d) + %s.repeats(%d)\nreturn [s.size, s[0], s >= s[1:]]" % (klit(w), n - h, klit(w), h) if False else
                            "const s = %s.repeats(%d)\nconst t = %s.repeats(%d)\nconst u = s + t\nreturn [u.size, u[0], u == s + t]" % (klit(w), n - h, klit(w), h),
                            e if len(w) * n < 65534 else A(e, EXC)))
                out.append(("const t = %s.repeats(%d)\nconst u = string(t, t)\nreturn [u.size, u[-1]]" % (klit(w), h),
                            [2 * h * len(w), w[-1]] if 2 * h * len(w) < 65534 else A([2 * h * len(w), w[-1]], EXC)))
            if n < 65534:
                out.append(("const s = string(array(%d, %d))\nreturn [s.size, s[0], s[-1]]" % (n, ord(w[0])), [n, w[0], w[0]]))
                out.append(("const s = \"x\".ljust(%d, %s)\nreturn [s.size, s[0], s[-1]]" % (n, klit(w[0])), [n, "x", w[0]]))
            else:
                out.append(("const s = string(array(%d, %d))\nreturn [s.size, s[0], s[-1]]" % (n, ord(w[0])), A([n, w[0], w[0]], EXC)))
                out.append(("const s = \"x\".ljust(%d, %s)\nreturn [s.size, s[0], s[-1]]" % (n, klit(w[0])), A([n, "x", w[0]], EXC)))
            enc = w[0].encode()
            bl = "const b = buffer()\nfor const i in range(%d) { b.resize(b.size + 1, %d)\n%s }\n" % (min(n, 66000), enc[0], "\n".join("b.resize(b.size + 1, %d)" % x for x in enc[1:]))
            if n in (30000, 65533, 65534, 65535, 65536, 70000):
                m = min(n, 66000)
                e = [m, w[0], w[0]]
                out.append((bl + "const s = string(b)\nreturn [s.size, s[0], s[-1]]", e if m < 65534 else A(e, EXC)))
    for n in (10000, 32766, 32767):
        out.append(('return [("a,".repeats(%d)).split(",")...].size' % n, n + 1))
        out.append(('return [("a ".repeats(%d)).split()...].size' % n, n))
        out.append(('return [("a\\n".repeats(%d)).split_lines()...].size' % n, n))
    return out

def check(c):
    b = vlib.build("asan")
    cases = []
    for _ in range(c.n(40000, 400000)):
        e, v = one(c.rng)
        cases.append(("return " + e, v))
    for code, e in cases[:3]: c.sample(code + "   == " + repr(e))
    kmodel.run_cases(c, b, cases, batch=500, prelude=PRE, label="string operation")
    kmodel.run_cases(c, b, big(c), batch=2, prelude=PRE, label="long strings")

if __name__ == "__main__": vlib.main(check, "C10", rule="string operations on strings of 8-, 16- and 32-bit code points obtained in 12 ways (literals, slices of wider strings, decoded buffers, "
          "concatenations, generators, ...), compared with Python str; non-trivial: distinct expression",
          assumptions=["case mapping is checked for ASCII and caseless characters only (the rest depends on the C library's locale)",
                       "searches for an empty pattern are not checked (undocumented)"])
