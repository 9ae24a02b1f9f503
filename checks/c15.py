"""C15: unreachable objects are reclaimed and their resources released; memory stays bounded."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

# name, code of one piece of garbage made from the integer i, count, (optional) imports
KINDS = [
    ("objects", "const o = {a: i}; o.b = [o, i]", 4000),
    ("cycles", "const a = {}; const b = {a: a, v: [1, 2, 3]}; a.b = b; b.self = b", 4000),
    ("array cycles", "const a = []; a.push([a, a, i]); a.push(a)", 4000),
    ("closure cycles", "var f = void; f = fun { return f; }; f()", 4000),
    ("strings", 'const s = "abc\\(i)" + "\\x{17D}" + "x".repeats(i % 3000); s[2 : -1].size', 3000),
    ("string keys", 'const o = {}; o["key\\(i)"] = i; o["other\\(i * 7)"] = o', 3000),
    ("slices", 'const s = ("q\\(i)").repeats(600); const t = s[5 : 500]; [t, t[3 : 300]]', 2000),
    ("buffers", "const b = buffer(i % 5000, 1); b.resize(b.size * 2); b[: b.size >> 1]", 2000),
    ("big buffers", "const b = buffer(300000, 1); b[5] = 1", 300),
    ("big arrays", "const b = array(30000, i); b[5] = b", 200),
    ("growing arrays", "const a = []; for const k in range(200) { a.push(k * 1000000007) }", 400),
    ("growing objects", 'const a = {}; for const k in range(100) { a["p\\(k)"] = k }; for const k in range(50) { delete a["p\\(k)"] }', 200),
    ("generators", "const g = GEN(i); g(); g()", 3000),
    ("abandoned generator chains", "const g = map(x => x + 1, GEN(i)); g()", 1500),
    ("finished generators", "for const x in range(5) { x + 1 }", 3000),
    ("numbers", "[i * 4611686018427387, i / 3.7, -i * 123456789012]", 6000),
    ("classes", "const k = class { constructor { this.x = i } }; const o = k(); o.y = o", 1500),
    ("exceptions", 'try { throw {i: i} } catch const e { e.value.e = e }', 2000),
    ("deep exceptions", 'try { DEEP(20) } catch const e { e.value; }', 300),
    ("threads", "(async do { i + 1 }).wait()", 200),
    ("failing threads", 'try { (async do { throw "x\\(i)" }).wait() } catch const e { e.value; }', 100),
    ("weak references to prototypes", "const f = class { }; f.prototype.a = f", 2000),
    ("files", 'const f = io.file(FILE); f.read_line()', 120, ["io"]),
    ("unread files", 'io.file(FILE)', 120, ["io"]),
    ("pipes", "const p = io.pipe(); p.write.write(\"x\")", 60, ["io"]),
    ("file locks", 'const f = io.file(FILE); f.lock().release()', 60, ["io"]),
    ("sockets", "net.socket(net.AF_INET, net.SOCK_STREAM, 0)", 60, ["net"]),
    ("mutexes", "const m = threads.mutex(); m.acquire(); m.release()", 1500, ["threads"]),
    ("semaphores", "threads.semaphore(i % 5)", 1500, ["threads"]),
    ("random generators", "random.random(i).integer()", 1500, ["random"]),
    ("regular expressions", 're.re("a\\(i % 5)(b|c)*d").find("xxa1bbcd")', 500, ["re"]),
    ("lexers", 'const l = kos.lexer("f", "a + b \\(i)"); l()', 300, []),
    ("executed scripts", 'kos.execute("\\(i) + 5")', 30, []),
    ("processes", 'os.spawn("/bin/true").wait()', 25, ["os"]),
    ("json", 'json.parse(json.dump({a: [i, {b: "\\(i)"}]}))', 200, ["json"]),
    ("dates", 'datetime.now()', 500, ["datetime"]),
]

SCRIPT = '''%(imports)simport base.*
import kos
import fs
fun GEN(n) { loop { yield n; n += 1 } }
var DEEP = void
DEEP = fun(n) { if n { DEEP(n - 1) } else { throw "deep" } }
const FILE = args[1]
fun MAKE(i) { %(code)s; }
fun run(n) { for const i in range(n) { MAKE(i) } }
fun fds { return array(fs.listdir("/proc/self/fd")).size }
fun settle { var s = void; for const _ in range(3) { s = kos.collect_garbage() }; return s }
run(%(warm)d)
const s0 = settle()
const f0 = fds()
var f1 = 0
var peak = 0
for const round in range(%(rounds)d) {
    run(%(n)d)
    const s = settle()
    if s.used_heap_size > peak { peak = s.used_heap_size }
    const f = fds()
    if f > f1 { f1 = f }
}
const s1 = settle()
print("HEAP", s0.used_heap_size, s1.used_heap_size, "MALLOC", s0.malloc_size, s1.malloc_size, "FDS", f0, f1)
'''

def check(c):
    import resource
    b = vlib.build("asan")
    rel = vlib.build("rel")
    data = vlib.scratch_path(".txt")
    with open(data, "w") as f: f.write("line one\nline two\n")
    rounds = c.n(3, 12)
    def src(k, n, rounds):
        name, code, cnt = k[:3]
        return SCRIPT % dict(imports="".join("import %s\n" % m for m in (k[3] if len(k) > 3 else [])), code=code, warm=max(5, cnt // 20), n=n, rounds=rounds)
    def one(k):
        n = k[2]
        return k, n, vlib.run_script(b, src(k, n, rounds), args=[data], timeout=120)
    for k, n, r in vlib.pmap(one, KINDS):
        m = re.search(r"HEAP (\d+) (\d+) MALLOC (\d+) (\d+) FDS (\d+) (\d+)", r.text())
        text = None
        if not m or r.rc or r.abnormal():
            text = "fails: exit %d %s\n%s" % (r.rc, r.abnormal() or "", r.etext()[-3000:])
        else:
            h0, h1, m0, m1, f0, f1 = map(int, m.groups())
            c.case(k[0], n=n * rounds)
            c.stat("pieces of garbage made", n * rounds)
            c.extra.setdefault("per kind: heap before/after, malloc before/after, fds before/after", {})[k[0]] = [h0, h1, m0, m1, f0, f1]
            per = max(8, n // 16)         # less than a word per 2 pieces
            if h1 > h0 + 16 * per + 8192: text = "heap grows from %d to %d bytes after %d x %d pieces" % (h0, h1, rounds, n)
            elif m1 > m0 + 16 * per + 32768: text = "memory outside the heap grows from %d to %d bytes after %d x %d pieces" % (m0, m1, rounds, n)
            elif f1 > f0 + 2: text = "open descriptors grow from %d to %d after %d x %d pieces" % (f0, f1, rounds, n)
        if text:
            c.violation("garbage of kind %s (%s): %s" % (k[0], k[1], text), {"case.kos": src(k, n, rounds), "stderr.txt": r.err, "stdout.txt": r.out})
    # automatic collection: with no explicit request, a long run stays within bounds
    def auto(k):
        t = '''%simport base.*
import io
fun GEN(n) { loop { yield n; n += 1 } }
var DEEP = void
DEEP = fun(n) { if n { DEEP(n - 1) } else { throw "deep" } }
const FILE = args[1]
fun MAKE(i) { %s; }
for const i in range(integer(args[2])) { MAKE(i) }
for const l in io.read_lines("/proc/self/status") { if l.starts_with("VmHWM") { print(l) } }
''' % ("".join("import %s\n" % m for m in (k[3] if len(k) > 3 else []) if m != "io"), k[1])
        r1 = vlib.run_script(rel, t, args=[data, str(k[2] * 25)], timeout=120)
        r2 = vlib.run_script(rel, t, args=[data, str(k[2] * c.n(100, 400))], timeout=120)
        return k, t, r1, r2
    for k, t, r1, r2 in vlib.pmap(auto, [k for k in KINDS if len(k) == 3]):
        m1 = re.search(r"VmHWM:\s*(\d+) kB", r1.text()); m2 = re.search(r"VmHWM:\s*(\d+) kB", r2.text())
        if not m1 or not m2:
            c.violation("garbage of kind %s: automatic collection run fails: exit %d %d\n%s" % (k[0], r1.rc, r2.rc, (r1.etext() + r2.etext())[-3000:]),
                        {"case.kos": t})
            continue
        c.case(("auto", k[0]), n=k[2] * c.n(100, 400))
        p1, p2 = int(m1.group(1)), int(m2.group(1))
        c.extra.setdefault("peak memory kB of a short and a %dx longer run" % (c.n(100, 400) // 25), {})[k[0]] = [p1, p2]
        if p2 > max(p1 * 1.4 + 16 * 1024, 140 * 1024):
            c.violation("garbage of kind %s: peak memory grows from %d kB to %d kB when the run is %d times longer" % (k[0], p1, p2, c.n(4, 16)),
                        {"case.kos": t})

if __name__ == "__main__": vlib.main(check, "C15", rule="kinds of garbage (values, cycles, closures, generators, native objects, descriptors): used memory and open descriptors compared "
          "before and after repeated rounds with explicit collections, peak memory of a short and a long run with automatic collection; non-trivial: distinct kind",
          assumptions=["a few KB of growth are tolerated"])
