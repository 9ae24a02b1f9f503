"""C16: no argument crashes a built-in: any call ends with a value or an exception."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import klit

MODS = ["base", "io", "iter", "json", "kos", "math", "net", "os", "random", "re", "threads", "fs", "datetime", "debug"]
# blocking, terminal output or effects outside the scratch directory
SKIP = {"base.print", "base.print_lines", "base.print_", "io.print_lines", "os.spawn", "threads.sleep", "threads.mutex.acquire", "threads.semaphore.acquire",
        "net.socket.accept", "net.socket.read", "net.socket.recv", "net.socket.recvfrom", "net.socket.wait", "net.socket.connect", "net.socket.getaddrinfo",
        "net.socket.sendto", "net.socket.bind", "io.file.lock", "io.file_lock", "base.exception.print", "base.thread.wait",
        "kos.collect_garbage", "iter.cycle", "iter.repeats", "iter.product", "base.function.async"}
REFLECT = '''
import base.*
for const m in %s {
    const mo = module.load(m)
    for const name, _ in shallow(mo.exports) {
        const v = mo.get(name)
        const t = typeof v
        if t == "function" || t == "class" {
            print(m + "." + name)
            if t == "class" {
                for const p, _ in shallow(v.prototype) { print(m + "." + name + "." + p) }
            }
        }
    }
}
'''
PRE = '''
fun G(m, n) { return module.load(m).get(n) }
fun GEN(a) { for const x in a { yield x } }
fun ONEGEN { yield 1 }
fun DEADGEN { const g = ONEGEN(); g(); try { g() } catch const _e { } return g }
fun THROWGEN { yield 1; throw "gen" }
fun SELFGEN { var g = void; const f = fun { loop { yield g } }; g = f(); return g }
fun CYC { const a = [1]; a.push(a); return a }
fun CYCO { const a = {x: 1}; a.y = a; return a }
fun DEEPA(n) { var a = []; for const i in range(n) { a = [a] } return a }
fun DEEPO(n) { var a = {}; for const i in range(n) { a = {x: a} } return a }
fun DEEPP(n) { var a = object(); for const i in range(n) { const c = class { }; c.prototype = a; a = c() } return a }
class WEIRD { constructor { this.size = "x" } fun iterator { throw "it" } fun next { throw "next" } fun acquire { throw "acq" } fun release { } fun get(x...) { return this } }
class ITER { fun iterator { return this } }
class BADIT { fun iterator { return 5 } }
fun LONG(n) { return "ab\\x{17D}".repeats(n) }
fun BUF(n) { const b = buffer(n, 7); return b }
fun FILE(w) { return G("io", "file")("scratch_file", w ? (G("io", "create_flag") || 3) : void) }
fun CALL(f) { try { f() } catch const _e { } const t = [1, "x", {a: 2}]; return t[0] == 1 && t[1] == "x" && t[2].a == 2 && "a" + "b" == "ab" && sum([1, 2, 3]) == 6 ? "ok" : "broken" }
'''
INTS = [0, 1, -1, 2, 3, 7, 8, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32,
        (1 << 53) + 1, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]
FLOATS = ["0.0", "-0.0", "0.5", "1.0e308", "-1.0e308", "1.0e-320", "(0.0 / (0.0 + OPAQUE(0.0)))", "1.0e300 * OPAQUE(1.0e300)", "9.3e18", "2147483648.5", "-1.5"]
STRS = ['""', '"a"', '"abc"', '"\\x{10FFFF}"', '"\\x{17D}bc"', '"\\x{0}"', '"%"', '"(a|b)*c"', '"[z-a]"', '"((((((((((a"', '"a{1,5}"', '"\\\\\\\\"', '"u4 i8 b3 s"', '"i999"', '"<u8 >f8"', '"scratch_file"',
        '"no/such/dir"', '"{\\"a\\": [1, 2.5, null]}"', '"[[[["', '"1e999"', '"0x"', '"-"', '"fun { }"', '"+ + +"', '"\\"unterminated"', '"iterator"', '"size"', '"prototype"', "LONG(100)", "LONG(21845)", "LONG(200)[3 : 400]"]
OTHERS = ["void", "true", "false", "[]", "{}", "[1, 2, 3]", '["a", "b"]', "[[1, 2], [3, 4]]", "[void]", "CYC()", "CYCO()", "DEEPA(900)", "DEEPO(900)", "DEEPP(500)", "WEIRD()", "ITER()", "BADIT()", "WEIRD", "ITER", "BUF(0)", "BUF(1)",
          "BUF(5000)", "buffer()", "GEN([1, 2, 3])", 'GEN(["a", "b"])', "GEN([])", "DEADGEN()", "THROWGEN()", "SELFGEN()", "ONEGEN", "(x => x)", "((x, y...) => y)", "((x) => [x])", "(() => void)", "(fun { throw 1 })", "sum",
          "string.prototype.find", "array", "object", "string", "integer", "module.load(\"base\")", "FILE(true)", "FILE(false)", 'G("threads", "mutex")()', 'G("threads", "semaphore")(2)', 'G("random", "random")(5)',
          're_obj()', "array(2000, 1)", "array(50, CYC())", '{a: 1, b: "x", c: [1]}', '{iterator: 5, size: -1}', "exception_obj()", "[1, \"a\", 2.5, void, [], {}]", "socket_obj()", '"x".iterator()', "[1, 2].iterator()"]
PRE2 = '''
fun re_obj { return G("re", "re")("(a+)(b)?") }
fun exception_obj { try { throw "e" } catch const e { return e } return void }
fun socket_obj { try { return G("net", "socket")(2, 1) } catch const _e { } return void }
'''
def val(rng):
    k = rng.random()
    if k < 0.3: return klit(rng.choice(INTS))
    if k < 0.36: return rng.choice(FLOATS)
    if k < 0.55: return rng.choice(STRS)
    if k < 0.6 and False: return "[]"
    v = rng.choice(OTHERS)
    if rng.random() < 0.1: v = "[%s, %s]" % (v, rng.choice(OTHERS))
    return v

NATIVE_THIS = {"string": STRS, "array": [x for x in OTHERS if x.startswith(("[", "array(", "CYC()", "DEEPA"))], "buffer": ["BUF(0)", "BUF(9)", "BUF(5000)", "buffer()"],
               "integer": [klit(x) for x in INTS], "float": FLOATS, "number": FLOATS, "function": ["(x => x)", "sum", "ONEGEN"], "class": ["WEIRD", "array", "string"],
               "generator": ["GEN([1, 2, 3])", "DEADGEN()", "SELFGEN()", "THROWGEN()"], "file": ["FILE(true)", "FILE(false)"], "random": ['G("random", "random")(5)'], "re": ["re_obj()"],
               "mutex": ['G("threads", "mutex")()'], "semaphore": ['G("threads", "semaphore")(2)'], "module": ['module.load("base")', 'module.load("io")'], "socket": ["socket_obj()"], "object": ["{}", "{a: 1}", "CYCO()", "DEEPO(50)"]}

OPS = ["a + b", "a - b", "a * b", "a / b", "a % b", "a << b", "a >> b", "a >>> b", "a & b", "a | b", "a ^ b", "a == b", "a != b", "a < b", "a <= b", "a > b", "a >= b", "a in b", "a propertyof b", "a instanceof b", "a[b]", "a[?b]", "a[b : c]", "a[b :]", "a[: b]",
       "a.x", "a.?x", "a(b)", "a(b, c)", "a(b...)", "a(b..., c...)", "[a..., b...]", "-a", "~a", "!a", "typeof a", '"\\(a)"', '"\\(a) \\(b)"', "a ? b : c", "a && b", "a || b", "a.size", "a.prototype", "a.iterator()", "b -> (a)", "a.get(b)", "a.slice(b, c)"]
STM = ["a[b] = c", "a.x = b", "delete a[b]", "delete a.x", "a[b : c] = a", "for const x in a { if N() { break } }", "for const x, y in a { if N() { break } }", "const x, y = a", "var x, y = a", "with a { x += 1 }", "throw a", "a += b", "a -= b", "a[b] += c",
       "switch a { case b { x = 1 } case c { x = 2 } default { x = 3 } }", "for const x in GEN(a) { if N() { break } }", "(async do { a + b; }).wait()", "const k = class extends a { }; k(b)", "const k = a; k.y = b; k[c] = b", "while a { a = b; if N() { break } }",
       "for const x in shallow(a) { if N() { break } }", "for const x in deep(a) { if N() { break } }", "try { throw a } catch const e { throw e }", "do { defer { throw a } throw b }", "a.resize(b); a.push(c); a.size", "a.insert(b, c); a", "a.fill(b); a.sort()", "a.sort(b)", "a.sort(x => b)",
       "a.pack(b, c); a.unpack(b)", "map(a, b)(); filter(a, b)(); reduce(a, b, c)", "zip(a, b)()"]

def native_call(rng, t):
    parts = t.split(".")
    m, n = parts[0], parts[1]
    args = ", ".join(val(rng) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6))))
    f = 'G("%s", "%s")' % (m, n)
    if len(parts) == 3:
        pool = NATIVE_THIS.get(n)
        this = rng.choice(pool) if pool and rng.random() < 0.8 else val(rng)
        k = rng.random()
        if k < 0.6:
            return 'const t = %s; t.%s(%s); t.%s(%s); "\\(t)"' % (this, parts[2], args, parts[2], args)
        return 'const f = %s.prototype.%s; f.apply(%s, [%s])' % (f, parts[2], this, args)
    if rng.random() < 0.2:
        return '%s.apply(%s, [%s])' % (f, val(rng), args)
    if rng.random() < 0.5:
        return 'const r = %s(%s); "\\(r)"; if typeof r == "function" { r(); r() }' % (f, args)
    return '%s(%s)' % (f, args)

def deepcases():
    n = 100000
    out = []
    for e in ("DEEPA(%d)" % n, "DEEPO(60000)"):
        for code in ('"\\(x)"', "stringify(x)", "x == x", "[x] == [x]", "[x] < [x]", "typeof x", "x.size", "const y = [x, x]; y.sort()", 'G("json", "dump")(x)', "throw x", '"".find(x)', "const g = GEN([x]); g(); g()", "array(x)", "object(x)",
                     "for const k in deep([x]) { if N() { break } }", "kos_gc(); x.size", "const s = [x]; s[0] = void; kos_gc()", "join([x])", "each(x => x, [x])"):
            out.append('const x = %s; %s' % (e, code))
    # chains through other kinds of references
    out.append("var f = x => x; for const i in range(30000) { const g = f; f = x => g } kos_gc(); f(1)")
    out.append("const o = DEEPP(20000); o.nosuch")
    out.append("const o = DEEPP(20000); o.x = 1; kos_gc(); o.x")
    out.append('var s = "a"; for const i in range(60000) { s = "b" + s[0 : 300] } s.size')
    out.append('var s = "abc".repeats(20000); for const i in range(15000) { s = s[1 :] } kos_gc(); s.size')
    out.append('const r = G("re", "re")("(".repeats(3000) + "a" + ")".repeats(3000)); r.find("a")')
    out.append('const r = G("re", "re")("(a|b)*"); r.find("ab".repeats(30000))')
    out.append('G("json", "parse")("[".repeats(5000) + "]".repeats(5000))')
    out.append('G("kos", "execute")("(".repeats(5000) + ")".repeats(5000))')
    out.append('G("kos", "execute")("[".repeats(60000))')
    out.append('G("kos", "execute")("-".repeats(60000) + "1")')
    out.append('G("kos", "execute")("{".repeats(60000))')
    out.append('G("kos", "execute")("a.b".repeats(20000))')
    out.append('G("kos", "execute")("1" + "+1".repeats(30000))')
    out.append('G("kos", "execute")("x=>".repeats(20000) + "1")')
    out.append('G("kos", "execute")("if true { } else ".repeats(4000) + "{ }")')
    out.append("const f = void; fun rec(n) { return rec(n + 1) } rec(0)")
    out.append("class k { fun x { return this.x() } } k().x()")
    out.append("const a = []; const b = []; a.push(b); b.push(a); a == b; a < b; \"\\(a)\"")
    out.append('const o = {}; o.prototype = o; o.x')
    # comparison of deeply nested arrays
    out.append("const x = DEEPA(%d); const y = DEEPA(%d); x == y" % (n, n))
    return out

def check(c):
    b = vlib.build("asan")
    r = vlib.run_script(b, REFLECT % klit(MODS))
    targets = [x for x in r.text().split() if x not in SKIP and not x.split(".")[-1].startswith("print")]
    c.require(len(targets) > 150, "reflection found only %d functions\n%s" % (len(targets), r.etext()))
    c.stat("functions and methods called", len(targets))
    rng = c.rng
    d = vlib.scratch_path("")
    os.makedirs(d)
    pre = "var NCOUNT = 0\nfun N { NCOUNT += 1; return NCOUNT % 5 == 0 }\nfun kos_gc { return module.load(\"kos\").get(\"collect_garbage\")() }\n" + PRE + PRE2
    # every argument vector runs in its own function, whose result is only checked for health
    def wrap(code): return "return CALL(fun { var x = 0; %s; })" % code
    cases = []
    for t in targets:
        for _ in range(c.n(45, 600)): cases.append((wrap(native_call(rng, t).replace("var x = 0", "")), "ok"))
    for _ in range(c.n(6000, 60000)):
        if rng.random() < 0.6: st = "x = " + rng.choice(OPS)
        else: st = rng.choice(STM)
        cases.append((wrap("var a = OPAQUE(%s); var b = OPAQUE(%s); var c = OPAQUE(%s); %s" % (val(rng), val(rng), val(rng), st)).replace("var x = 0; ", "" if re.search(r"(const|var) x", st) else "var x = 0; "), "ok"))
    rng.shuffle(cases)
    for code, e in cases[:4]: c.sample(code)
    env = dict(ASAN_OPTIONS=vlib.BASE_ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=600")
    kmodel.SLOW = 30
    old = os.getcwd()
    os.chdir(d)
    try:
        kmodel.run_cases(c, b, cases, batch=60, prelude=pre, label="built-in called with unusual arguments", env=env)
        dc = [(wrap(x).replace("var x = 0; ", ""), "ok") for x in deepcases()]
        kmodel.run_cases(c, b, dc, batch=1, prelude=pre, label="deep structure", env=env)
    finally:
        os.chdir(old)
        kmodel.SLOW = 0

if __name__ == "__main__": vlib.main(check, "C16", rule="every public function, constructor and method found by reflection, every operator and statement form, called with random combinations of hostile values, and very deep "
          "structures; each case must end with a value or a catchable exception and leave the interpreter working; non-trivial: distinct call",
          assumptions=["functions that block, print or act outside a scratch directory are left out", "allocations above 600 MB fail"])
