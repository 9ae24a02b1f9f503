"""C21: regular expressions find the leftmost match chosen by the stated preferences."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit
sys.setrecursionlimit(20000)

# --- expressions as trees:  ("chr", c) ("any",) ("bol",) ("eol",) ("bnd", kind) ("cls", neg, ranges) ("grp", capturing, alt)
#     ("rep", item, lo, hi, lazy);  an alternative is a list of sequences of these.
SPECIAL = set('.*+?{^$\\[|()"')
DIGIT = [(48, 57)]
WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]

def is_word(c): return c is not None and c < 128 and (chr(c).isalnum() or c == 95)

class Slow(Exception): pass

class Matcher:
    """Plain backtracking on the tree, with continuations."""
    def __init__(self, text, begin, end, limit):
        self.t, self.b, self.e, self.limit = text, begin, end, limit
    def step(self):
        self.limit -= 1
        if self.limit < 0: raise Slow()
    def alt(self, alts, pos, caps, k):
        for seq in alts:
            r = self.seq(seq, 0, pos, caps, k)
            if r: return r
        return None
    def seq(self, seq, i, pos, caps, k):
        if i == len(seq): return k(pos, caps)
        return self.item(seq[i], pos, caps, lambda p, c: self.seq(seq, i + 1, p, c, k))
    def item(self, x, pos, caps, k):
        self.step()
        t, e = self.t, self.e
        cur = t[pos] if pos < e else None
        op = x[0]
        if op == "chr": return k(pos + 1, caps) if cur == x[1] else None
        if op == "any": return k(pos + 1, caps) if cur is not None else None
        if op == "cls":
            if cur is None: return None
            return k(pos + 1, caps) if any(a <= cur <= b for a, b in x[2]) != x[1] else None
        if op == "bol": return k(pos, caps) if pos <= self.b or t[pos - 1] in (10, 13) else None
        if op == "eol": return k(pos, caps) if cur is None or cur in (10, 13) else None
        if op == "bnd":
            prev = t[pos - 1] if pos > 0 else None
            a, b = is_word(prev), is_word(cur)
            ok = {"<": not a and b, ">": a and not b, "b": a != b, "B": a == b}[x[1]]
            return k(pos, caps) if ok else None
        if op == "grp":
            cap = x[1]
            if cap is None: return self.alt(x[2], pos, caps, k)
            def done(p, c):
                c = dict(c); c[cap] = (c[cap, 0], p) ; return k(p, c)
            c = dict(caps); c[cap, 0] = pos
            return self.alt(x[2], pos, c, done)
        if op == "rep":
            return self.rep(x, 0, pos, caps, k, None)
        raise AssertionError(x)
    def rep(self, x, n, pos, caps, k, start):
        _, it, lo, hi, lazy = x
        # an iteration which consumed nothing is the last one
        more = n < hi and not (start is not None and start == pos and n >= lo)
        again = lambda: self.item(it, pos, caps, lambda p, c: self.rep(x, n + 1, p, c, k, pos))
        if n < lo: return again()
        if lazy: return k(pos, caps) or (again() if more else None)
        return (again() if more else None) or k(pos, caps)

def search(alts, ngroups, text, begin, end, limit=60000):
    m = Matcher([ord(c) for c in text], begin, end, limit)
    for pos in range(begin, end + 1):
        r = m.alt(alts, pos, {}, lambda p, c: (p, c))
        if r:
            p, caps = r
            return pos, p, [caps.get(i) for i in range(ngroups)]
    return None

# --- printing a tree as an expression
def pchr(c, rng):
    ch = chr(c)
    if 9 <= c <= 13 and rng.random() < 0.7: return "\\" + "tnvfr"[c - 9]
    if ch in SPECIAL and not (ch == '"'): return "\\" + ch
    if ch in '"]' and rng.random() < 0.3: return "\\" + ch
    return ch
def pcls(c, rng):
    ch = chr(c)
    if 9 <= c <= 13 and rng.random() < 0.7: return "\\" + "tnvfr"[c - 9]
    if ch in "]-\\^": return "\\" + ch
    if ch in '[()"' and rng.random() < 0.3: return "\\" + ch
    return ch
def show(x, rng):
    op = x[0]
    if op == "chr": return pchr(x[1], rng)
    if op == "any": return "."
    if op == "bol": return "^"
    if op == "eol": return "$"
    if op == "bnd": return "\\" + x[1]
    if op == "cls":
        if x[2] is DIGIT: return "\\D" if x[1] else "\\d"
        if x[2] is WORD: return "\\W" if x[1] else "\\w"
        return "[" + ("^" if x[1] else "") + "".join(pcls(a, rng) if a == b and rng.random() < 0.9 else pcls(a, rng) + "-" + pcls(b, rng) for a, b in x[2]) + "]"
    if op == "grp": return ("(?:" if x[1] is None else "(") + showalt(x[2], rng) + ")"
    _, it, lo, hi, lazy = x
    if (lo, hi) == (0, 0xffff): q = rng.choice(("*", "*", "{0,}"))
    elif (lo, hi) == (1, 0xffff): q = rng.choice(("+", "+", "{1,}"))
    elif (lo, hi) == (0, 1): q = rng.choice(("?", "?", "{0,1}"))
    elif lo == hi: q = rng.choice(("{%d}" % lo, "{%d,%d}" % (lo, hi)))
    elif hi == 0xffff: q = "{%d,}" % lo
    else: q = "{%d,%d}" % (lo, hi)
    return show(it, rng) + q + ("?" if lazy else "")
def showalt(alts, rng): return "|".join("".join(show(x, rng) for x in s) for s in alts)

class Gen:
    def __init__(self, rng):
        self.rng = rng; self.groups = 0
        self.alpha = rng.choice(["ab", "abc", "ab\n", "a_ 1", "aA1z~", "ab\u0105\u0142", "ab\U0001f600\uffff", "x-]^\\", "a\r\n", ".*+?", "\"[](){}|$"])
    def ch(self): return ord(self.rng.choice(self.alpha))
    def atom(self, depth):
        rng = self.rng
        k = rng.random()
        if k < 0.45: return ("chr", self.ch())
        if k < 0.53: return ("any",)
        if k < 0.57: return ("bol",)
        if k < 0.61: return ("eol",)
        if k < 0.65: return ("bnd", rng.choice("<>bB"))
        if k < 0.70: return ("cls", rng.random() < 0.5, rng.choice((DIGIT, WORD)))
        if k < 0.80 or depth <= 0: return ("cls", rng.random() < 0.3, self.ranges())
        cap = None
        if rng.random() < 0.7:
            cap = self.groups; self.groups += 1
        return ("grp", cap, self.alt(depth - 1))
    def ranges(self):
        rng = self.rng; out = []
        for _ in range(rng.choice((1, 1, 2, 3, 4, 6, 10))):
            a = self.ch() if rng.random() < 0.6 else rng.choice((rng.randrange(32, 127), rng.randrange(97, 123), rng.randrange(0x100, 0x10000) & ~0x800 | 0x100, rng.randrange(0x10000, 0x110000)))
            if 0xd800 <= a < 0xe000: a = 0x61
            b = a if rng.random() < 0.5 else min(0x10ffff, a + rng.choice((1, 2, 3, 10, 26, 100)))
            if 0xd800 <= b < 0xe000: b = 0xd7ff if a <= 0xd7ff else a
            out.append((a, b))
        return out
    def alt(self, depth):
        rng = self.rng
        return [self.seq(depth) for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 4)))]
    def seq(self, depth):
        rng = self.rng
        out = []
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4))):
            x = self.atom(depth)
            if rng.random() < 0.4:
                lo, hi = rng.choice(((0, 0xffff), (0, 0xffff), (1, 0xffff), (0, 1), (0, 1), (2, 2), (1, 3), (0, 2), (2, 4), (2, 0xffff), (1, 1), (3, 3)))
                x = ("rep", x, lo, hi, rng.random() < 0.35)
            out.append(x)
        return out
    def text(self):
        rng = self.rng
        n = rng.choice((0, 1, 2, 3, 4, 6, 8, 12, 20))
        extra = rng.choice(("", "", "", " ", "z", "\u0142", "\U00010000"))
        return "".join(rng.choice(self.alpha + extra) for _ in range(n))

PRELUDE = r"""
import re
fun FIND(expr, string, args...) {
    const r = re.re_uncached(expr)
    const m = r.find(string, args...)
    const m2 = re.re(expr).find(string, args...)
    if typeof m == "void" { return typeof m2 == "void" ? void : "cached expression differs" }
    if m2.begin != m.begin || m2.end != m.end { return "cached expression differs" }
    if m.string != string { return "string not kept" }
    return [m.begin, m.end, m.match, [m.groups.map(g => typeof g == "void" ? g : [g.begin, g.end])...], m.match_groups]
}
"""

BAD = ["*", "+a", "?", "{2}", "a**", "a{2}{2}", "a|*", "(*)", "(", "(a", "a{", "a{2", "a{,2}", "a{3,2}", "a{0}", "a{0,0}", "a{x}", "a{1,x}", "a{99999}", "[", "[a", "[b-a]", "[a-", "\\", "\\q", "[\\q]", "(?<a>b)", "(?", "(?x)", "a{2,3", "[^", "a*+", "a???", "(a))(", "^^{", "(a|b", "((a)"]
FIXED = ["(a*)*b", "(a*)*", "(a|b*)*c", "(a*)+", "(?:a*)*?b", "(|a)*b", "(a?){3,}b", "()*", "(()*)*", "(^)*a", "(\\b)*a", "(a*?)*?b", "((a*)*)*c", "(a{0,2}){2,5}b", "(?:)*", "(a|)+b"]

def build(rng):
    g = Gen(rng)
    alts = g.alt(rng.choice((0, 1, 2, 3)))
    return g, alts, showalt(alts, rng)

def parse_fixed(s):
    """A small parser for the FIXED expressions, so that they have trees as well."""
    pos = [0]; groups = [0]
    def alt():
        out = [seq()]
        while pos[0] < len(s) and s[pos[0]] == "|":
            pos[0] += 1; out.append(seq())
        return out
    def seq():
        out = []
        while pos[0] < len(s) and s[pos[0]] not in "|)":
            c = s[pos[0]]; pos[0] += 1
            if c == "(":
                cap = None
                if s.startswith("?:", pos[0]): pos[0] += 2
                else: cap = groups[0]; groups[0] += 1
                x = ("grp", cap, alt()); pos[0] += 1
            elif c == "^": x = ("bol",)
            elif c == "\\": x = ("bnd", s[pos[0]]); pos[0] += 1
            else: x = ("chr", ord(c))
            q = None
            if pos[0] < len(s) and s[pos[0]] in "*+?": q = {"*": (0, 0xffff), "+": (1, 0xffff), "?": (0, 1)}[s[pos[0]]]; pos[0] += 1
            elif pos[0] < len(s) and s[pos[0]] == "{":
                e = s.index("}", pos[0]); a, _, b = s[pos[0] + 1:e].partition(","); q = (int(a), int(b) if b else 0xffff); pos[0] = e + 1
            if q:
                lazy = pos[0] < len(s) and s[pos[0]] == "?"
                if lazy: pos[0] += 1
                x = ("rep", x, q[0], q[1], lazy)
            out.append(x)
        return out
    a = alt()
    assert pos[0] == len(s), s
    return a, groups[0]

def expected(alts, ngroups, text, begin, end):
    r = search(alts, ngroups, text, begin, end)
    if r is None: return None
    b, e, caps = r
    return [b, e, text[b:e], [list(x) if x else None for x in caps], [text[x[0]:x[1]] if x else None for x in caps]]

def clamp(i, n, lo, default):
    if i is None: return default
    if i < 0: i += n
    return max(lo, min(n, i))

def check(c):
    b = vlib.build("asan")
    rng = c.subrng("re")
    cases = []
    def add(expr, alts, ng, text, args=None):
        n = len(text)
        bg, en = 0, n
        a = ""
        if args:
            a = ", " + ", ".join(klit(x) for x in args)
            bg = clamp(args[0], n, 0, 0)
            if len(args) > 1: en = clamp(args[1], n, bg, n)
        try: e = expected(alts, ng, text, bg, en)
        except (Slow, RecursionError):
            c.stat("searches skipped because they backtrack too long"); return
        c.stat("searches that match" if e else "searches without a match")
        if e and any(x for x in e[3]): c.stat("matches with captured groups")
        cases.append(("return FIND(%s, %s%s)" % (klit(expr), klit(text), a), e))
    for i in range(c.n(6000, 120000)):
        g, alts, expr = build(rng)
        for j in range(2):
            t = g.text()
            args = None
            if rng.random() < 0.25: args = [rng.choice((0, 1, 2, -1, -3, 100, len(t)))] + ([] if rng.random() < 0.4 else [rng.choice((None, 0, 1, 3, -1, -2, 100))])
            add(expr, alts, g.groups, t, args)
    for s in FIXED:
        alts, ng = parse_fixed(s)
        for t in ("", "a", "b", "ab", "aab", "aaac", "ba", "aaaa", "xab", "aaaab"):
            add(s, alts, ng, t)
    # classes over many characters, one at a time
    for i in range(c.n(200, 4000)):
        g = Gen(rng); rs = g.ranges(); neg = rng.random() < 0.3
        pts = sorted({p for a, z in rs for p in (a - 1, a, z, z + 1, (a + z) // 2)} | {g.ch()})
        pts = [p for p in pts if 0 < p < 0x110000 and not 0xd800 <= p < 0xe000]
        t = "".join(map(chr, pts))
        alts = [[("cls", neg, rs)]]
        ex = "[" + ("^" if neg else "") + "".join(pcls(a, rng) if a == z else pcls(a, rng) + "-" + pcls(z, rng) for a, z in rs) + "]"
        exp = [p for p in range(len(pts)) if any(a <= pts[p] <= z for a, z in rs) != neg]
        c.stat("classes probed at their edges")
        cases.append(("const r = re.re_uncached(%s); const t = %s; const out = []; for const i in range(t.size) { if typeof r.find(t, i, i + 1) != \"void\" { out.push(i) } }; return out" % (klit(ex), klit(t)), exp))
    for s in BAD: cases.append(("return FIND(%s, \"abc\")" % klit(s), EXC))
    # long subjects and expressions
    for n in (100, 1000, 20000, 65534, 65535):
        cases.append(("const s = \"a\".repeats(%d); const m = re.re(\"a*\").find(s); return [m.begin, m.end, m.match == s]" % n, [0, n, True]))
        cases.append(("const s = \"a\".repeats(%d) + \"b\"; const m = re.re(\"a*?b\").find(s); return [m.begin, m.end]" % (n - 1), [0, n]))
        cases.append(("const s = \"a\".repeats(%d); const m = re.re(\"(a)*$\").find(s); return [m.begin, m.end, m.groups[0].begin]" % n, [0, n, n - 1]))
    for n in (10, 500, 3000):
        cases.append(("const m = re.re(\"(\".repeats(%d) + \"a\" + \")\".repeats(%d)).find(\"xa\"); return [m.begin, m.end, m.groups.size, m.groups[%d].begin]" % (n, n, n - 1), [1, 2, n, 1]))
        cases.append(("const m = re.re(\"a|\".repeats(%d) + \"b\").find(\"xb\"); return [m.begin, m.end]" % n, [1, 2]))
    kmodel.run_cases(c, b, cases, 250, prelude=PRELUDE.replace("import re\n", ""), mods=["re"], label="search", timeout=60)
    # malformed and random expressions never crash the engine
    rnd = []
    for i in range(c.n(1500, 30000)):
        g, alts, expr = build(rng)
        e = list(expr)
        for _ in range(rng.randrange(1, 4)):
            k = rng.randrange(3); p = rng.randrange(len(e) + 1)
            if k == 0: e.insert(p, rng.choice("()[]{}*+?|\\^$-,1" + g.alpha))
            elif k == 1 and e: e.pop(min(p, len(e) - 1))
            elif e: e[min(p, len(e) - 1)] = rng.choice("()[]{}*+?|\\^$-,1")
        rnd.append(("try { re.re_uncached(%s) } catch const e { if typeof e.value != \"string\" { return false } }; return true" % klit("".join(e)), True))
    kmodel.run_cases(c, b, rnd, 250, mods=["re"], label="malformed expression", timeout=60)

if __name__ == "__main__": vlib.main(check, "C21", rule="generated expressions and subjects searched by the real engine under ASan and UBSan and by an independent backtracking matcher on the expression's tree; compared: position, extent and every group; non-trivial: distinct case",
          assumptions=["expressions whose search needs exponential backtracking are skipped"])
