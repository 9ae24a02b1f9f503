"""C24: lazy sequence functions produce the right elements, pulling them in the right order and no further."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, AnyOf, klit, IMIN, IMAX, Buf

PRE = r'''

var LOG = []
fun SRC(id, vals...) { for const v in vals { LOG.push([id, v]); yield v }; LOG.push([id, "end"]) }
fun OP(id, kind, pat...) { var k = 0; return fun(x) {
    LOG.push([id, x])
    const p = pat[k % pat.size]
    k += 1
    if p == "!" { throw "stop" }
    if kind == "pred" { return p }
    if kind == "wrap" { return [p, x] }
    return x
} }
fun FOLD(id, pat...) { var k = 0; return fun(acc, x) {
    LOG.push([id, x])
    const p = pat[k % pat.size]
    k += 1
    if p == "!" { throw "stop" }
    return [p, acc..., x]
} }
fun RUN(f) { LOG = []; var r = void; try { r = ["ok", f()] } catch const e { r = ["exc", typeof e.value == "string" && e.value == "stop"] }; const l = LOG; return [r, l] }
'''

class Stop(Exception): pass
class Bad(Exception): pass

class E:
    """An expression: code and a function which evaluates it in the model, giving a value (list, str, Buf or generator)."""
    def __init__(self, code, ev, isgen, n): self.code, self.ev, self.isgen, self.n = code, ev, isgen, n

class Ctx:
    def __init__(self): self.log = []

def elems(v):
    """Iterate a model value as the interpreter does."""
    if isinstance(v, (bytes, bytearray)):
        for x in v: yield x
        return
    for x in v: yield x

def src(c, id, vals):
    for v in vals:
        c.log.append([id, v])
        yield v
    c.log.append([id, "end"])

def krange(a, b, s):
    out = []
    if s > 0:
        while a < b:
            out.append(a); a += s
            if len(out) > 400: raise Bad()
    elif s < 0:
        while a > b:
            out.append(a); a += s
            if len(out) > 400: raise Bad()
    return out

def rint(rng): return rng.choice((0, 1, 2, 3, -1, -2, 5, 7, 10, 100))
def rval(rng):
    k = rng.random()
    return rint(rng) if k < 0.7 else rng.choice(("a", "xyz", "", None, True, False, [1, 2], 1.5))

class Gen:
    def __init__(self, rng, c):
        self.rng, self.c, self.ids = rng, c, 0
    def id(self):
        self.ids += 1
        return self.ids
    def pat(self, kind):
        rng = self.rng
        n = rng.choice((1, 2, 3, 5))
        p = [rng.choice((True, True, False, 1, 0, None, "")) if kind == "pred" else rint(rng) for _ in range(n)]
        if rng.random() < 0.06: p[rng.randrange(n)] = "!"
        return p
    def op(self, kind):
        i, p, c = self.id(), self.pat(kind), self.c
        def mk():
            st = {"k": 0}
            def f(x):
                c.log.append([i, x])
                v = p[st["k"] % len(p)]
                st["k"] += 1
                if v == "!": raise Stop()
                return v if kind == "pred" else [v, x] if kind == "wrap" else x
            return f
        return "OP(%d, \"%s\", %s)" % (i, kind, ", ".join(klit(v) for v in p)), mk
    def truthy(self, v): return not (v is None or v is False or (not isinstance(v, (str, list)) and v == 0))
    def source(self, depth=0):
        rng, c = self.rng, self.c
        k = rng.choice((0, 1, 2, 3, 4, 5, 6, 5, 8, 9, 10))
        vals = [rval(rng) for _ in range(rng.choice((0, 1, 2, 3, 4, 6, 9)))]
        if k == 0: return E(klit(vals), lambda: list(vals), False, len(vals))
        if k == 1:
            s = "".join(rng.choice("abc\u00e9\u4e2d\U0001f600") for _ in vals)
            return E(klit(s), lambda: s, False, len(s))
        if k == 2:
            b = Buf(rng.randrange(256) for _ in vals)
            return E(klit(b), lambda: b, False, len(b))
        if k in (3, 4):
            if rng.random() < 0.06:
                d = rng.choice((1, 2, 3, IMAX // 2, IMAX))
                if rng.random() < 0.5: a, z, s = IMAX - rng.randrange(8), IMAX - rng.randrange(3), d
                else: a, z, s = IMIN + rng.randrange(8), IMIN + rng.randrange(3), -d
            elif rng.random() < 0.2: a, z, s = rng.randrange(-4, 4) / 4, rng.randrange(-8, 8) / 2, rng.choice((0.5, 1, -0.25, 2.0))
            else: a, z, s = rng.randrange(-9, 9), rng.randrange(-9, 9), rng.choice((1, 1, 2, 3, -1, -2, -5, 0))
            v = krange(a, z, s)
            code = "range(%s, %s, %s)" % (klit(a), klit(z), klit(s))
            if s == 1 and isinstance(a, int):
                code = rng.choice((code, "range(%s, %s)" % (klit(a), klit(z))))
                if a == 0: code = "range(%s)" % klit(z)
            return E(code, lambda: iter(v), True, len(v))
        if k in (5, 6):
            i = self.id()
            return E("SRC(%d%s)" % (i, "".join(", " + klit(v) for v in vals)), lambda: src(c, i, vals), True, len(vals))
        if k == 8:
            a = rng.choice((0, 5, -3, IMAX - 4, IMAX))
            n = rng.randrange(7)
            v = list(range(a, min(a + n, IMAX + 1)))
            return E("iter.iota(%s)[:%d]" % (klit(a), n) if a or rng.random() < 0.5 else "iter.iota()[:%d]" % n, lambda: iter(v), True, len(v))
        if k == 9:
            dims = [rng.randrange(0, 4) for _ in range(rng.choice((0, 1, 2, 2, 3)))]
            if len(dims) == 1: v = list(range(dims[0]))
            elif not dims: v = []
            else: v = [list(t)[::-1] for t in itertools.product(*[range(d) for d in dims[::-1]])]
            return E("iter.iproduct(%s)" % ", ".join(map(str, dims)), lambda: iter([list(x) if isinstance(x, list) else x for x in v]), True, len(v))
        if depth < 2:
            n = rng.choice((2, 2, 3))
            ss = [self.pipe(rng.choice((0, 0, 1)), depth + 1) for _ in range(n)]
            tot = 1
            for s in ss: tot *= max(s.n, 1)
            if tot <= 60:
                def ev(ss=ss):
                    vs = [s.ev() for s in ss]
                    caches = [None] * len(vs)
                    def one(j):
                        v = vs[j]
                        if hasattr(v, "__next__"):
                            # generators are consumed once, as they are first needed
                            if caches[j] is not None:
                                yield from list(caches[j])
                                return
                            caches[j] = []
                            for x in v:
                                caches[j].append(x)
                                yield x
                        else: yield from elems(v)
                    def rec(m):
                        if m == 0:
                            for x in one(0): yield [x]
                            return
                        for x in one(m):
                            for o in rec(m - 1): yield o + [x]
                    return rec(len(vs) - 1)
                return E("iter.product(%s)" % ", ".join(s.code for s in ss), ev, True, tot)
        return E(klit(vals), lambda: list(vals), False, len(vals))
    def stage(self, e, depth):
        rng, c = self.rng, self.c
        k = rng.randrange(9)
        if k in (0, 1):
            code, mk = self.op(rng.choice(("id", "wrap")))
            def ev():
                v, f = e.ev(), mk()
                def g():
                    for x in elems(v): yield f(x)
                return g()
            return E(rng.choice(("map(%s, %s)" % (code, e.code), "(%s).map(%s)" % (e.code, code), "(%s -> map(%s))" % (e.code, code), "map(%s)(%s)" % (code, e.code))), ev, True, e.n)
        if k in (2, 3):
            code, mk = self.op("pred")
            def ev():
                v, f = e.ev(), mk()
                def g():
                    for x in elems(v):
                        if self.truthy(f(x)): yield x
                return g()
            return E(rng.choice(("filter(%s, %s)" % (code, e.code), "(%s).filter(%s)" % (e.code, code), "(%s -> filter(%s))" % (e.code, code))), ev, True, e.n)
        if k == 4:
            def ev():
                v = e.ev()
                def g():
                    for i, x in enumerate(elems(v)): yield [i, x]
                return g()
            return E("enumerate(%s)" % e.code, ev, True, e.n)
        if k == 5:
            o = [self.pipe(rng.choice((0, 0, 1)), depth + 1) for _ in range(rng.choice((1, 1, 2)))]
            all_ = [e] + o
            rng.shuffle(all_)
            def ev():
                vs = [x.ev() for x in all_]
                def g():
                    its = []
                    for v in vs:
                        its.append(elems(v) if not hasattr(v, "__next__") else v)
                    while 1:
                        out = []
                        for it in its:
                            try: out.append(next(it))
                            except StopIteration: return
                        yield out
                return g()
            return E("zip(%s)" % ", ".join(x.code for x in all_), ev, True, min(x.n for x in all_))
        if k == 6:
            n = rng.choice((0, 1, 2, 3))
            if e.n * n > 80: return e
            def ev():
                v = e.ev()
                def g():
                    w = v
                    if n == 0: return
                    if not isinstance(w, (list, str, bytes)): w = list(elems(w))
                    for _ in range(n): yield from elems(w)
                return g()
            return E(rng.choice(("iter.repeats(%d, %s)" % (n, e.code), "(%s -> iter.repeats(%d))" % (e.code, n))) if True else "", ev, True, e.n * n)
        if k == 7:
            def ev():
                v = e.ev()
                def g():
                    yield from list(elems(v))[::-1]
                return g()
            return E("iter.reverse(%s)" % e.code, ev, True, e.n)
        if e.isgen and rng.random() < 0.7:
            a = rng.choice((None, 0, 1, 2, 5, -1, -2)); b = rng.choice((None, 0, 1, 3, 6, -1, -3))
            def ev():
                v = e.ev()
                if (a or 0) < 0 or (b or 0) < 0: return list(v)[slice(a, b)]
                def g():
                    i = 0
                    A = a or 0
                    if i < A:
                        for x in v:
                            i += 1
                            if i >= A: break
                    if b is None: yield from v
                    elif i < b:
                        for x in v:
                            yield x
                            i += 1
                            if i >= b: break
                return g()
            isarr = (a or 0) < 0 or (b or 0) < 0
            return E("(%s)[%s:%s]" % (e.code, "" if a is None else a, "" if b is None else b), ev, not isarr, e.n)
        def ev():
            v = e.ev()
            if isinstance(v, (list, str, bytes)): return iter(range(len(v)))
            def g():
                for i, _ in enumerate(elems(v)): yield i
            return g()
        return E("indices(%s)" % e.code, ev, True, e.n)
    def pipe(self, n, depth=0):
        e = self.source(depth)
        for _ in range(n): e = self.stage(e, depth)
        return e
    def sink(self, e):
        rng, c = self.rng, self.c
        k = rng.randrange(14)
        X = e.code
        if k < 3:
            return rng.choice(("[(%s)...]" % X, "array(%s)" % X, "(%s -> array)" % X)[:3 if e.isgen else 1]), lambda: list(elems(e.ev()))
        if k == 3:
            n = rng.choice((1, 2, 3))
            def ev():
                out = []
                for x in elems(e.ev()):
                    out.append(x)
                    if len(out) >= n: break
                return out
            return "(fun { const r = []; const g = %s; for const x in g { r.push(x); if r.size >= %d { break } }; return r })()" % (X, n), ev
        if k == 4:
            def ev():
                v = e.ev()
                for x in elems(v): return x
                raise Bad("exc")
            return "first(%s)" % X, ev
        if k == 5:
            def ev():
                v = e.ev()
                l = list(elems(v))
                if not l: raise Bad("exc")
                return l[-1]
            return "last(%s)" % X, ev
        if k in (6, 7, 8):
            code, mk = self.op("pred")
            which = ("all", "any", "count")[k - 6]
            def ev():
                v, f, n = e.ev(), mk(), 0
                for x in elems(v):
                    t = self.truthy(f(x))
                    if which == "all" and not t: return False
                    if which == "any" and t: return True
                    n += t
                return n if which == "count" else which == "all"
            return rng.choice(("%s(%s, %s)" % (which, code, X), "(%s).%s(%s)" % (X, which, code), "(%s -> %s(%s))" % (X, which, code))), ev
        if k == 9:
            i, p = self.id(), self.pat("fold")
            def ev():
                v, acc = e.ev(), []
                for n, x in enumerate(elems(v)):
                    c.log.append([i, x])
                    q = p[n % len(p)]
                    if q == "!": raise Stop()
                    acc = [q] + acc + [x]
                return acc
            f = "FOLD(%d, %s)" % (i, ", ".join(klit(x) for x in p))
            return rng.choice(("reduce(%s, [], %s)" % (f, X), "(%s).reduce(%s, [])" % (X, f), "(%s -> reduce(%s, []))" % (X, f))), ev
        if k == 10:
            code, mk = self.op("id")
            def ev():
                v, f, n = e.ev(), mk(), 0
                for x in elems(v): f(x); n += 1
                return n
            return rng.choice(("each(%s, %s)" % (code, X), "(%s -> each(%s))" % (X, code))), ev
        if k == 11: return rng.choice(("count_elements(%s)" % X, "(%s).count()" % X, "(%s -> each())" % X, "sum(map(x => 1, %s))" % X)), lambda: len(list(elems(e.ev())))
        if k == 12:
            # the generator handed over half way
            n = rng.choice((0, 1, 2))
            if not e.isgen: return "[(%s)...]" % X, lambda: list(elems(e.ev()))
            def ev():
                g, a = e.ev(), []
                if n:
                    for x in g:
                        a.append(x)
                        if len(a) >= n: break
                return [a, list(g)]
            return "(fun { const g = %s; const r = []; if %d { for const x in g { r.push(x); if r.size >= %d { break } } }; return [r, [g...]] })()" % (X, n, n), ev
        return "[(%s)...]" % X, lambda: list(elems(e.ev()))

def fix(v):
    if isinstance(v, (list, tuple)): return [fix(x) for x in v]
    return v

def cases(c, key, n):
    out = []
    for i in range(n):
        rng = c.subrng(key, i)
        cx = Ctx()
        g = Gen(rng, cx)
        try:
            e = g.pipe(rng.choice((0, 1, 2, 2, 3, 4, 6)))
            code, ev = g.sink(e)
            try: res = ["ok", fix(ev())]
            except Stop: res = ["exc", True]
            except Bad as b:
                if not b.args: continue
                res = ["exc", False]
        except Bad: continue
        if len(cx.log) > 600: continue
        out.append(("return RUN(fun { return %s })" % code, [res, fix(cx.log)]))
    return out

def misc(c, n):
    """Sorting, joining, cycling, hexadecimal text, bound methods."""
    out = []
    for i in range(n):
        rng = c.subrng("misc", i)
        k = rng.randrange(8)
        vals = [rng.randrange(-20, 20) for _ in range(rng.choice((0, 1, 2, 5, 10, 40, 200)))]
        if k == 0:
            rev, m = rng.random() < 0.5, rng.choice((1, 3, 7))
            pairs = [[v % m, j] for j, v in enumerate(vals)]
            out.append(("return sort(p => p[0], %s, %s)" % (klit(rev), klit(pairs)), AnyOf(sorted(pairs, key=lambda p: p[0], reverse=rev), sorted(pairs, key=lambda p: p[0])[::-1] if rev else sorted(pairs, key=lambda p: p[0]))))
        elif k == 1:
            rev = rng.random() < 0.5
            out.append((rng.choice(("return sort(%s, map(x => x, %s))", "return sort(%s)(%s)", "return %2$s -> sort(%1$s)")[:2]) % (klit(rev), klit(vals)), sorted(vals, reverse=rev)))
        elif k == 2:
            sep = rng.choice(("", ",", ", ", "\u4e2d", "--"))
            v = [rng.choice((x, str(x), "a\U0001f600")) for x in vals]
            out.append((rng.choice(("return join(%s, %s)", "return %s |> 0" if False else "return join(%s)(map(x => x, %s))", "return join(%s, SRC(1, %s...))")) % (klit(sep), klit(v)), sep.join(str(x) for x in v)))
        elif k == 3:
            if not vals: continue
            n_ = rng.randrange(50)
            cyc = [vals[j % len(vals)] for j in range(n_)]
            out.append(("return array(iter.cycle(%s)[:%d])" % (rng.choice((klit(vals), "SRC(1, %s...)" % klit(vals), "map(x => x, %s)" % klit(vals))), n_), cyc))
        elif k == 4:
            v = rng.choice((rng.randrange(1 << 20), rng.randrange(-(1 << 63), 1 << 63), 0, IMAX, IMIN, -1, 15, 16))
            d = rng.choice((0, 1, 4, 8, 16, 20))
            out.append(("return [hex(%s, %d), (%s).hex(%d)]" % (klit(v), d, klit(v), d), EXC if d > 16 else ["0x" + ("%x" % (v & (2 ** 64 - 1))).rjust(max(d, 1), "0")] * 2))
        elif k == 5:
            out.append(("const o = { v: %s, f: fun(a, b) { return [this.v, a, b] } }; return [method(o, o.f)(1, 2), method(o, \"f\")(3, void)]" % klit(vals[:5]), [[vals[:5], 1, 2], [vals[:5], 3, None]]))
        elif k == 6:
            x = rng.choice(vals) if vals and rng.random() < 0.8 else 99
            out.append(("const a = %s; return [count(%d, a), any(%d, a), all(%d, a), a.count(%d), a.any(%d), a.all(%d)]" % ((klit(vals),) + (x,) * 6),
                        [vals.count(x), x in vals, all(y == x for y in vals)] * 2))
        else:
            out.append(("const g = iter.generator(SRC(1, %s...)); return [[g()...], [g()...], LOG.size]" % klit(vals), None) if False else
                       ("LOG = []; const g = iter.generator(SRC(1, %s...)); const r = [[g()...], [g()...], [g()...]]; return [r, LOG.size]" % klit(vals), [[vals] * 3, len(vals) + 1]))
    return out

KNOWN_LOOP = "const r = []; for const x in range(9223372036854775800, 9223372036854775807, 4) { r.push(x); if r.size >= 5 { break } }; return r"
def loops(c, n):
    out = [(KNOWN_LOOP, [IMAX - 7, IMAX - 3])]
    for i in range(n):
        rng = c.subrng("loop", i)
        near = rng.random() < 0.3
        s = rng.choice((1, 1, 2, 3, -1, -2, -7, 0.5, -0.25))
        a, z = rng.choice((rng.randrange(-20, 20), rng.randrange(-40, 40) / 4)), rng.choice((rng.randrange(-20, 20), rng.randrange(-40, 40) / 4))
        if near:
            s = rng.choice((1, -1))
            a, z = (IMAX - rng.randrange(9), IMAX - rng.randrange(3)) if s > 0 else (IMIN + rng.randrange(9), IMIN + rng.randrange(3))
        v = krange(a, z, s)
        h = lambda x: klit(x) if rng.random() < 0.5 else "OPAQUE(%s)" % klit(x)
        st = ("%d" if isinstance(s, int) else "%r") % s
        args = "%s, %s, %s" % (h(a), h(z), st) if s != 1 or rng.random() < 0.5 else "%s, %s" % (h(a), h(z))
        if s == 1 and a == 0 and isinstance(a, int): args = h(z)
        k = rng.randrange(4)
        if k == 0: out.append(("const r = []; for const x in range(%s) { r.push(x) }; return r" % args, v))
        elif k == 1:
            cut = rng.randrange(1, 6)
            w = []
            for j, x in enumerate(v):
                if j % cut == cut - 1: continue
                w.append(x)
            out.append(("const r = []; var j = 0; for var x in range(%s) { j += 1; if j %% %d == 0 { continue }; r.push(x); x = 1000 }; return r" % (args, cut), w))
        elif k == 2:
            out.append(("const r = []; var x = 77; for x in range(%s) { r.push(x) }; return [r, x]" % args, [v, None]))
        else:
            m = rng.randrange(1, 4)
            out.append(("const r = []; var x = 77; for x in range(%s) { r.push(x); if r.size >= %d { break } }; return [r, x]" % (args, m), [v[:m], v[m - 1] if len(v) >= m else None]))
    return out

def check(c):
    for cfg, nq, nt in (("asan", 1800, 60000), ("rel", 2500, 100000)):
        b = vlib.build(cfg)
        kmodel.run_cases(c, b, cases(c, cfg, c.n(nq, nt)), batch=60, prelude=PRE, mods=("iter",), label="sequence " + cfg, timeout=40)
    kmodel.run_cases(c, vlib.build("asan"), misc(c, c.n(600, 20000)), batch=60, prelude=PRE, mods=("iter",), label="sequence functions")
    # loops over range() with a constant step are compiled to other code than the function
    kmodel.run_cases(c, vlib.build("asan"), loops(c, c.n(300, 8000)), batch=60, prelude=PRE, mods=("iter",), label="loop over a range")
    kmodel.run_cases(c, vlib.build("mad"), cases(c, "mad", c.n(24, 600)), batch=3, prelude=PRE, mods=("iter",), label="sequence (collection at every allocation)", timeout=300)

if __name__ == "__main__": vlib.main(check, "C24", rule="random pipelines of sources, lazy stages and sinks, compared with a model in both the result and the log of every element pulled and every function called; non-trivial: distinct program",
          assumptions=["parallel use of a cached generator and cycling over nothing are unspecified and not run"])
