"""C13: any bytes given as a program are rejected with a located error or run as written; layout does not matter."""
import sys, os, re, random, glob, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel, klang, kgen, kprof
from kmodel import klit

TOK = re.compile(r'''\#[^\n]*|//[^\n]*|/\*.*?\*/|r"[^"]*"|"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|0[xX][0-9a-fA-F_]+|0[bB][01_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?|>>>=|<<=|>>=|>>>|\.\.\.|\.\?|\[\?|->|=>|==|!=|<=|>=|&&|\|\||<<|>>|[-+*/%&|^]=|::|.|\n''', re.S)
KW = "assert async await break case catch class const constructor continue default defer do else export extends fallthrough false for fun if import in instanceof loop match propertyof public repeat return self set static super switch this throw true try typeof var void while with yield _ base __line__".split()
OPS = "( ) [ ] { } , ; : . .? [? ... -> => = + - * / % & | ^ ~ ! < > == != <= >= && || << >> >>> += -= *= /= %= &= |= ^= <<= >>= >>>= # // /* */ \" \\ \\( ' @ $ `".split(" ")

def string_end(p, i):
    """Index after the string literal that starts at p[i], interpolations included."""
    i += 1
    while i < len(p):
        if p[i] == "\\":
            if p[i + 1:i + 2] == "(":
                i += 2; d = 1
                while i < len(p) and d:
                    if p[i] == '"': i = string_end(p, i); continue
                    if p[i] == "(": d += 1
                    if p[i] == ")": d -= 1
                    i += 1
                continue
            i += 2; continue
        if p[i] == '"': return i + 1
        i += 1
    return i

def tokens(p):
    o = []; i = 0
    while i < len(p):
        if p[i] == '"': j = string_end(p, i)
        else: j = TOK.match(p, i).end()
        o.append(p[i:j]); i = j
    return o

def mutate(rng, toks, pool):
    t = list(toks)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        if not t: break
        i = rng.randrange(len(t)); k = rng.randrange(10)
        if k == 0: del t[i]
        elif k == 1: t.insert(i, rng.choice(t))
        elif k == 2: t[i] = rng.choice(t)
        elif k == 3: t[i] = rng.choice(KW)
        elif k == 4: t.insert(i, rng.choice(OPS))
        elif k == 5: t.insert(i, rng.choice(KW) + " ")
        elif k == 6:
            j = min(len(t), i + rng.randrange(1, 12)); seg = t[i:j]; p = rng.randrange(len(t) + 1); t[p:p] = seg
        elif k == 7:
            j = min(len(t), i + rng.randrange(1, 12)); del t[i:j]
        elif k == 8:
            o = rng.choice(pool); a = rng.randrange(len(o)); t[i:i] = o[a:a + rng.randrange(1, 15)]
        else:
            t[i] = rng.choice(("\x00", "\xff", "é", "\u2028", "\U0001f600", "0x", "1e", "1.", "9223372036854775808", "99999999999999999999", "\"", "\\", "/*", "\r", "\t", "\x0b", "\ufeff", "0b2", "1_", "_", "\"\\(", "\"\\x{", "\"\\x{110000}\"", "\"\\(\"\\(1)\")\""))
    return "".join(t)

def bytemut(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice((1, 2, 4, 16))):
        if not d: break
        i = rng.randrange(len(d)); k = rng.randrange(4)
        if k == 0: d[i] = rng.randrange(256)
        elif k == 1: del d[i:i + rng.randrange(1, 8)]
        elif k == 2: d[i:i] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
        else: d[i] ^= 1 << rng.randrange(8)
    return bytes(d)

POS = re.compile(r"^(?:[^\n]*?)\b([A-Za-z0-9_.]+\.kos):(\d+):(\d+): error: ", re.M)

def wellformed(r, name, data):
    """None, or what is wrong with the way the program was rejected or ended."""
    if r.timed_out: return None
    if r.abnormal(): return r.abnormal()
    if r.rc not in (0, 1): return "exit code %d" % r.rc
    if r.rc == 0: return None
    e = r.etext()
    if not e.strip(): return "failed without a message"
    m = POS.search(e)
    if m and m.group(1) == name:
        line, col = int(m.group(2)), int(m.group(3))
        text = data.decode("utf-8", "replace")
        # line breaks: at most every kind of vertical space counts; a tab may be eight columns wide
        nlines = len(re.split("\r\n|[\r\n\x0b\x0c\x85\u2028\u2029]", text))
        width = max(len(l) + 7 * l.count("\t") for l in text.split("\n"))
        if not 1 <= line <= nlines + 1: return "error reported at line %d of %d" % (line, nlines)
        if not 1 <= col <= width + 2: return "error reported at column %d of line %d, longer than every line" % (col, line)
    return None

def run_prog(b, data, i, **kw):
    p = vlib.scratch_path(".kos")
    with open(p, "wb") as f: f.write(data)
    r = vlib.run([b.kos, p], timeout=kw.pop("timeout", 10), retry_timeout=False, limit_mb=None, cwd=os.path.dirname(p), max_out=1 << 20, **kw)
    os.unlink(p)
    return os.path.basename(p), r

def nests(n):
    """Programs nested n deep in one construct."""
    o = []
    for a, m, z in (("(", "1", ")"), ("[", "1", "]"), ("{a:", "1", "}"), ("-", "1", ""), ("!", "1", ""), ("~", "1", ""), ("typeof ", "1", ""), ("x[", "1", "]"), ("x(", "1", ")"),
                    ("\"\\(", "1", ")\""), ("fun { return ", "1", "}"), ("() => ", "1", ""), ("x ? ", "1", " : 2"), ("1 + (", "1", ")"), ("do { return ", "1", "}"), ("async x(", "1", ")"),
                    ("[... ", "x", "]"), ("x.y(z)[", "1", "]")):
        o.append("var x = void\nx = " + a * n + m + z * n + "\n")
    for a, z in (("if true {", "}"), ("while false {", "}"), ("for const y in [] {", "}"), ("{", "}"), ("do {", "}"), ("try {", "} catch const e { }"), ("switch 1 { case 1 {", "} }"),
                 ("fun {", "}"), ("loop { break; ", "}"), ("with x {", "}"), ("fun f {", "}"), ("class C {} do {", "}"), ("defer {", "}"), ("if true { } else {", "}"), ("repeat {", "} while false")):
        o.append("var x = void\n" + a * n + "\n" + z * n + "\n")
    o.append("var x = 1\nx = " + "x ? 1 : " * n + "2\n")
    o.append("var x = 1\n" + "if x { } else " * n + "{ }\n")
    o.append("var x = 1\nx = x" + " + x" * n + "\n")
    o.append("var x = 1\nx = x" + " && x" * n + "\n")
    o.append("var x = 1\nx = x" + ".y" * n + "\n")
    o.append("var x = 1\nx = x" + "()" * n + "\n")
    o.append("var x = 1\nx = x" + "[0]" * n + "\n")
    o.append("var x = 1\nx = x" + " -> x" * n + "\n")
    o.append("/*" * n + "*/" * n + "\n")
    o.append("x" * n + "\n")
    o.append('"' + "y" * n + '"\n')
    o.append("1" * n + "\n"); o.append("0." + "1" * n + "\n"); o.append("1e" + "1" * n + "\n"); o.append("0x" + "0" * n + "1\n")
    o.append("fun f(" + ",".join("a%d" % i for i in range(n)) + ") { }\n")
    o.append("const x = [" + ",".join("%d" % i for i in range(n)) + "]\n")
    o.append("const x = {" + ",".join("a%d: %d" % (i, i) for i in range(n)) + "}\n")
    o.append("import base.*\nprint(" + ",".join("%d" % i for i in range(n)) + ")\n")
    o.append("fun f { " + "".join("const v%d = void; " % i for i in range(n)) + " }\nf()\n")
    o.append("".join("const v%d = %d\n" % (i, i) for i in range(n)))
    o.append("".join("fun f%d { return %d }\n" % (i, i) for i in range(n)))
    o.append("const x = " + "".join('"a%d" + ' % i for i in range(n)) + '"z"\n')
    o.append('const x = "' + "\\(1)" * n + '"\n')
    o.append("switch 1 { " + "".join("case %d { } " % i for i in range(n)) + "}\n")
    o.append("const " + ", ".join("v%d" % i for i in range(n)) + " = []\n")
    return o

def sized(rng, n):
    """A program with n statements in one body, and its output."""
    k = rng.randrange(6)
    inc = rng.choice((1, 1000, 100000))
    body = "".join("x = x + %d\n" % (inc + i % 3) for i in range(n)); tot = sum(inc + i % 3 for i in range(n))
    head = "import base.*\nvar x = 0\n"
    if k == 0: return head + "for const i in range(3) {\n" + body + "}\nprint(x)\n", 3 * tot
    if k == 1: return head + "if x == 0 {\n" + body + "} else {\n" + "x = -1\n" + body + "}\nprint(x)\n", tot
    if k == 2: return head + "if x != 0 {\n" + body + "} else {\n x = 7\n" + body + "}\nprint(x)\n", 7 + tot
    if k == 3: return head + "var i = 0\nwhile i < 4 {\n i += 1\n if i == 2 { continue }\n" + body + "if i == 3 { break }\n}\nprint(x)\n", 2 * tot
    if k == 4: return head + "fun f(c) {\ntry {\nif c { throw 1 }\n" + body + "}\ncatch const e {\n" + body + "x += 1\n}\n}\nf(false)\nf(true)\nprint(x)\n", 2 * tot + 1
    return head + "fun f(c) {\nswitch c {\ncase 1 {\n" + body + "}\ncase 2 {\n x = 5\n" + body + "}\ndefault { x = -1 }\n}\n}\nf(1)\nf(2)\nprint(x)\n", 5 + tot

LEXER = r'''
import base.*
import io
import kos
const data = io.stdin.read_some(10_000_000)
for const text in string(data).split("\x{1}") {
    try {
        const r = []
        for const t in kos.lexer("x", text) { r.push(t.token, "\x{2}", string(t.line), ":", string(t.column), "\x{3}") }
        io.stdout.write(string(r.size) + "\x{4}")
        for const x in r { io.stdout.write(x) }
    }
    catch const e { io.stdout.write("EXC") }
    io.stdout.write("\x{1}")
}
'''

def check(c):
    b = vlib.build("asan")
    rng = c.rng
    # 1. coverage-guided bytes through the parser, optimizer and compiler
    exe = vlib.build_native("fuzz_front", [os.path.join(vlib.VERIF, "native", "fuzz_front.c")], "fuzz", extra=["-fsanitize=fuzzer"])
    base = vlib.scratch_path(""); os.makedirs(base)
    corpus = os.path.join(base, "corpus"); os.makedirs(corpus)
    for f in glob.glob(os.path.join(vlib.REPO, "modules", "*.kos")): shutil.copy(f, corpus)
    progs = []
    for prof in ("default", "flow", "data", "closures"):
        for i in range(c.n(30, 100)):
            progs.append(klang.text(kgen.Gen(random.Random(rng.getrandbits(32)), kprof.ALL[prof], 25).program(), bool(i & 1)))
    for i, p in enumerate(progs[::4]):
        with open(os.path.join(corpus, "p%d.kos" % i), "w") as f: f.write(p)
    dic = os.path.join(base, "dict")
    with open(dic, "w") as f:
        for w in KW + [o for o in OPS if o]: f.write('"%s"\n' % w.replace("\\", "\\\\").replace('"', '\\"'))
    def fuzz(i):
        w = os.path.join(base, "w%d" % i); os.makedirs(w)
        out = os.path.join(base, "out%d" % i)
        r = vlib.run([exe, "-runs=%d" % c.n(4000, 60000), "-seed=%d" % (c.seed * 100 + i + 1), "-timeout=30", "-max_len=%d" % (300 if i % 2 else 6000), "-rss_limit_mb=4000", "-dict=" + dic,
                      "-print_final_stats=1", "-artifact_prefix=" + os.path.join(base, "crash%d-" % i), w, corpus], env={"VF_FUZZ_OUT": out}, cwd=base, timeout=700)
        crash = b""
        for f in glob.glob(os.path.join(base, "crash%d-*" % i)): crash = open(f, "rb").read()
        st = open(out).read().split() if os.path.exists(out) else ("0", "0")
        return i, r, crash, int(st[0]), int(st[1])
    for i, r, crash, acc, rej in vlib.pmap(fuzz, range(8)):
        c.stat("fuzzed inputs compiled", acc); c.stat("fuzzed inputs rejected", rej)
        m = re.findall(r"cov: (\d+)", r.etext())
        if m: c.extra["edges covered by fuzzing"] = max(c.extra.get("edges covered by fuzzing", 0), int(m[-1]))
        c.case(("fuzz", i), acc + rej)
        if r.rc != 0 and not r.timed_out:
            c.violation("front end on arbitrary bytes: exit %d %s\n%s" % (r.rc, r.abnormal() or "", r.etext()[-4000:]), {"input.kos": crash, "stderr.txt": r.err})
    shutil.rmtree(base, ignore_errors=True)
    # 2. damaged programs through the whole interpreter
    pool = [TOK.findall(p) for p in progs]
    jobs = []
    for i in range(c.n(1500, 20000)):
        t = rng.choice(pool)
        if rng.random() < 0.8: data = mutate(rng, t, pool).encode("utf-8", "surrogatepass")
        else: data = bytemut(rng, "".join(t).encode())
        jobs.append(data)
    def go(data):
        name, r = run_prog(b, data, 0)
        return data, r, wellformed(r, name, data)
    for data, r, bad in vlib.pmap(go, jobs):
        c.case(("mut", data)); c.stat("damaged programs " + ("that ran" if r.rc == 0 else "not finished in time" if r.timed_out else "rejected with a position" if POS.search(r.etext()) else "that ended in an exception"))
        if bad: c.violation("damaged program: %s\n%s" % (bad, r.etext()[-2500:]), {"input.kos": data, "stderr.txt": r.err})
    # 3. nesting and size limits of every construct
    jobs = []
    for n in ((50, 300, 3000, 100000) if c.tier == "quick" else (20, 50, 120, 200, 254, 255, 256, 257, 300, 1000, 3000, 20000, 70000, 300000)):
        for p in nests(n): jobs.append((n, p.encode()))
    def go2(a):
        name, r = run_prog(b, a[1], 0, timeout=60)
        return a, r, wellformed(r, name, a[1])
    for (n, data), r, bad in vlib.pmap(go2, jobs):
        c.case(("nest", n, data[:60])); c.stat("oversized programs " + ("that ran" if r.rc == 0 else "not finished in time" if r.timed_out else "rejected"))
        if bad: c.violation("program of nesting or size %d: %s\n%s" % (n, bad, r.etext()[-2500:]), {"input.kos": data, "stderr.txt": r.err})
    # 4. bodies of any size behave the same (jump distances, constants)
    jobs = [sized(rng, n) for n in [rng.randrange(1, 40) for _ in range(c.n(20, 200))] + [rng.choice((13, 14, 15, 16, 17, 18)) * rng.choice((1, 2, 16, 17, 256, 258)) for _ in range(c.n(20, 200))] + [3000, 5000, 8000, 12000] * c.n(1, 4)]
    def go3(a):
        name, r = run_prog(b, a[0].encode(), 0, timeout=120)
        return a, r
    for (src, exp), r in vlib.pmap(go3, jobs):
        c.case(("size", src)); c.stat("bodies of various sizes")
        if r.timed_out: continue
        if r.abnormal() or r.rc or r.text() != "%d\n" % exp:
            c.violation("a body of %d lines gives %r (exit %d), expected %d\n%s" % (src.count("\n"), r.text()[:100], r.rc, exp, r.etext()[-2000:]), {"input.kos": src})
    # 5. spaces, comments and line ends do not change the meaning
    jobs = []
    for p in rng.sample(progs, min(len(progs), c.n(60, 300))):
        toks = tokens(p)
        variants = [p.replace("\n", "\r\n"), p.replace("\n", "\r")]
        o = []
        for t in toks:
            if rng.random() < 0.2: o.append(rng.choice((" ", "  ", " /* c */ ", " /* \" ( */ ", " /**/ ", "\x0c", "\x0b")))
            if t == "\n" and rng.random() < 0.4: o.append(rng.choice((" # comment ( { \"", " // x", "#", " # \\", "  ")))
            o.append(t)
            if t == "\n" and rng.random() < 0.3: o.append(rng.choice(("\n", "\n\n", "  \n", "# line\n", "/* a\n b */\n")))
        variants.append("".join(o))
        variants.append("\ufeff" + p)
        jobs.append((p, variants))
    def go4(a):
        name, r0 = run_prog(b, a[0].encode(), 0, timeout=60)
        res = []
        for v in a[1]:
            _, r = run_prog(b, v.encode(), 0, timeout=60)
            if not r.timed_out and not r0.timed_out and (r.abnormal() or r.rc != r0.rc or r.out != r0.out): res.append((v, r))
        return a, r0, res
    for (p, vs), r0, res in vlib.pmap(go4, jobs):
        c.case(("layout", p)); c.stat("layout variants compared", len(vs))
        for v, r in res:
            c.violation("layout changes the meaning: exit %d and %d, outputs %r and %r\n%s" % (r0.rc, r.rc, r0.text()[-300:], r.text()[-300:], r.etext()[-1500:]), {"plain.kos": p, "variant.kos": v})
    kinds(c, b)
    # 6. the lexer's tokens are the text, at the positions reported
    texts = [p for p in rng.sample(progs, min(len(progs), c.n(60, 300)))] + [mutate(rng, rng.choice(pool), pool) for _ in range(c.n(200, 2000))]
    texts = [t for t in texts if not re.search("[\x01-\x04]", t)]
    jobs = []; size = 1 << 30
    for t in texts:
        if len(t) > 40000: continue
        if size + len(t) > 40000: jobs.append([]); size = 0
        jobs[-1].append(t); size += len(t) + 1
    def go5(ts):
        return ts, vlib.run_script(b, LEXER, stdin="\x01".join(ts).encode("utf-8", "surrogatepass"), timeout=120)
    for ts, r in vlib.pmap(go5, jobs):
        outs = r.text().split("\x01")[:-1]
        if r.abnormal() or r.rc or len(outs) != len(ts):
            c.violation("the lexer module fails: exit %d %s %d results of %d\n%s" % (r.rc, r.abnormal() or "", len(outs), len(ts), r.etext()[-1500:]), {"lexer.kos": LEXER, "input.txt": "\x01".join(ts)}); continue
        for t, o in zip(ts, outs):
            c.case(("lex", t))
            if o == "EXC": c.stat("texts the lexer rejects"); continue
            c.stat("texts split into tokens and compared")
            _, _, o = o.partition("\x04")
            items = [x.split("\x02") for x in o.split("\x03")[:-1]]
            bad = lexbad(t, items)
            if bad: c.violation("tokens: " + bad, {"input.txt": t, "tokens.txt": repr(items)})

TOKENS = {"+": "op_add", "-": "op_sub", "*": "op_mul", "/": "op_div", "%": "op_mod", "~": "op_not", "!": "op_lognot", "&": "op_and", "|": "op_or", "^": "op_xor", "<<": "op_shl", ">>": "op_shr",
    ">>>": "op_shru", "&&": "op_logand", "||": "op_logor", "?": "op_logtri", ".": "op_dot", "...": "op_more", "->": "op_arrow", "=>": "op_lambda", "==": "op_eq", "!=": "op_ne", ">=": "op_ge",
    ">": "op_gt", "<=": "op_le", "<": "op_lt", "=": "op_set", "+=": "op_setadd", "-=": "op_setsub", "*=": "op_setmul", "/=": "op_setdiv", "%=": "op_setmod", "&=": "op_setand", "|=": "op_setor",
    "^=": "op_setxor", "<<=": "op_setshl", ">>=": "op_setshr", ">>>=": "op_setshru", "(": "sep_paren_open", ")": "sep_paren_close", ",": "sep_comma", ":": "sep_colon", ";": "sep_semicolon",
    "[": "sep_square_open", "]": "sep_square_close", "{": "sep_curly_open", "}": "sep_curly_close"}
for _w in ("line assert async break case catch class const constructor continue default defer delete do else extends fallthrough false for fun get if import in instanceof loop repeat return set static super "
           "switch this throw true try typeof var void while with yield").split():
    TOKENS["__line__" if _w == "line" else _w] = "keyword_" + _w
TYPES = [(" ", "whitespace"), ("\n", "eol"), ("# x", "comment"), ("/* x */", "comment"), ("ifx", "identifier"), ("Xelse", "identifier"), ("12", "numeric"), ("1.5e3", "numeric"), ("0b1", "numeric"), ("\"s\"", "string")]

def kinds(c, b):
    """Each kind of token is what its constant says, in every neighbourhood."""
    rng = c.subrng("kinds")
    lits, exps, code = [], [], []
    q = lambda t: '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    todo = [(t, n.split("_", 1)) for t, n in TOKENS.items()] + [(t, ("token", n)) for t, n in TYPES]
    for t, (k, n) in todo:
        pair = {"(": ")", "[": "]", "{": "}"}
        back = dict((v, k) for k, v in pair.items())
        if t in pair:     texts = [t + x + pair[t] for x in ("", " ", "a", "\n")]
        elif t in back:   texts = [back[t] + x + t + y for x in ("", " ", "a") for y in ("", " b")]
        elif t == "# x":  texts = ["# x", "a # x", "a # x\n b"]
        elif t == " ":    texts = [" ", "a b", "a (b) "]
        elif t == "\n":   texts = ["\n", "a\nb", "a;\n"]
        elif t == "/":    texts = ["/", " /", "a /", "a / b", "a/b"]
        else:             texts = [a % t for a in ("a %s b", "(1)\n %s b\n", " %s b", "%s 1", "a\n%s\n")]
        for text in texts:
            code.append("one(%s, %s, %s, %s)" % (q(text), q(t), q(k), q("%s_%s" % (k, n))))
            c.case(("kind", text))
            c.stat("tokens classified")
    script = """import base.*
import kos
fun one(text, tok, kind, name) {
    try {
        var n = 0
        for const t in kos.lexer("x", text) {
            if t.token == tok {
                n += 1
                const prop = kind == "token" ? "type" : kind
                const type = kind == "op" ? kos.token_operator : kind == "sep" ? kos.token_separator : kos.token_keyword
                if t[prop] != kos[name] { print("bad: \\(text) \\(name) is \\(t[prop])") }
                if kind != "token" && t.type != type { print("bad type: \\(text) \\(name) is \\(t.type)") }
                if kind != "keyword" && t.keyword != kos.keyword_none { print("bad keyword: \\(text)") }
                if kind != "op" && t.op != kos.op_none { print("bad op: \\(text)") }
                if kind != "sep" && t.sep != kos.sep_none { print("bad sep: \\(text)") }
            }
        }
        if n == 0 { print("missing: \\(text) \\(tok)") }
    } catch const e { print("threw: \\(text) \\(e.value)") }
}
""".replace("\\\\(", "\\(") + "\n".join(code) + "\nprint(\"end\")\n"
    r = vlib.run_script(b, script, timeout=120)
    if r.abnormal() or r.text() != "end\n":
        c.violation("tokens are classified differently: exit %d %s\n%s\n%s" % (r.rc, r.abnormal() or "", r.text()[:1500], r.etext()[-800:]), {"script.kos": script}, key="kinds")

def lexbad(t, items):
    got = "".join(x[0] for x in items)
    if got != t.lstrip("\ufeff") and got != t: return "joined tokens %r differ from the text" % got[:200]
    # positions
    line = 1; col = 1
    for tok, pos in items:
        if pos != "%d:%d" % (line, col): return "token %r is at %d:%d but reported at %s" % (tok, line, col, pos)
        i = 0
        while i < len(tok):
            if tok[i] == "\r" and tok[i + 1:i + 2] == "\n": i += 1
            if tok[i] in "\n\r": line += 1; col = 1
            else: col += 1
            i += 1
    return None

if __name__ == "__main__": vlib.main(check, "C13", rule="coverage-guided and grammar-aware damaged programs, nested and oversized programs, re-laid-out programs and token streams; oracle: no sanitizer report or assertion, a message with a position inside the text, "
          "equal output for equal meaning, tokens that join to the text; non-trivial: distinct input",
          assumptions=["damaged programs that do not end within 10 s are not judged"])
