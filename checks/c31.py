"""C31: backtraces name the function and the line of every active call."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

class File:
    """A source file being written; knows the number of its next line."""
    def __init__(self, name): self.name, self.lines, self.ind = name, [], 0
    def put(self, text):
        first = len(self.lines) + 1
        for l in text.split("\n"): self.lines.append("    " * self.ind + l if l else "")
        return first
    def text(self): return "\n".join(self.lines) + "\n"

def fill(f, rng, big=False):
    """Code without effect, before or after the interesting place."""
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 6)) if not big else rng.randrange(100, 400)):
        f.n = getattr(f, "n", 0) + 1
        v = "f%d" % f.n
        k = rng.randrange(17)
        if k == 0: f.put("\n" * rng.choice((0, 1, 4, 30, 300) if rng.random() < 0.1 else (0, 1)))
        elif k == 1: f.put("# some comment " + "x" * rng.randrange(100))
        elif k == 2: f.put("/* a\n comment\n\n of lines */")
        elif k == 3: f.put("const %s = 1 + 2" % v)
        elif k == 4: f.put("const %s = [\n    1,\n\n    x,\n    2 ]" % v)
        elif k == 5: f.put("var %s = x\n%s = %s == void ? 1\n    : 2" % (v, v, v))
        elif k == 6: f.put("if false {\n    throw 1\n}")
        elif k == 7: f.put("if x != void {\n    throw 2\n}\nelse {\n    const %s = x\n}" % v)
        elif k == 8: f.put("fun %s(y) {\n    const z = y\n\n    return z\n}" % v)
        elif k == 9: f.put("const %s = {\n    a: 1,\n    b: x }" % v)
        elif k == 10: f.put("for const %s in range(2) {\n    const y = x\n}" % v)
        elif k == 11: f.put("try {\n    throw 1\n}\ncatch const %s { }" % v)
        elif k == 12: f.put("const %s = \"a\\(x)\\(\n    x)\"" % v)
        elif k == 13: f.put("const %s = (y) => (y)" % v)
        elif k == 14: f.put("const %s = [%s]" % (v, ", ".join(["x"] * rng.choice((1, 10, 60)))))
        elif k == 15: f.put("switch x {\n    case 1 { throw 1 }\n    default { const q = 1 }\n}")
        else: f.put("var %s = 0\nwhile %s < 2 {\n    %s += 1\n}" % (v, v, v))

THROWS = [("throw 5", 1), ("throw void", 1), ("const z = x.foo", 1), ("const z = x[0]", 1), ("x()", 1), ("const z = x + 1", 1), ("assert x", 1), ("const z = 1 / (x == void ? 0 : 1)", 1), ("const z = \"\\(x)\"\nz.p = 1", 1 | 2),
          ("const z = [1, 2]\nconst y = z[x == void ? 2 : 0]", 3), ("\"a\".repeats(-1)", 1), ("integer(\"q\")", 1), ("const z = [].resize(-1)", 1), ("const z = [\n  1,\n  x.foo,\n  2 ]", 4), ("const y = { a: x }\ny.a.b = 1", 3), ("const z = 1 + (x == void ? \"a\" : 1)", 1),
          ("const z = [1]\nfreeze(z)", 0), ("for const q in x { }", 0), ("const a, b = ([1][:])", 0), ("x.y.z = 1", 1), ("const z = ~x[\"a\"]", 1), ("const z = x instanceof x", 0), ("delete x.foo", 0), ("const z = (x)(1)", 1)]

def offs(t, code):
    """Line (from 0) of the text which fails."""
    if code & 2: return 1
    return 0

def upto(first, n):
    """Statement of several lines: any line from its first to the one which fails is right."""
    return (first, first + n)

def throw(f, rng):
    t, code = rng.choice([x for x in THROWS if x[1]])
    return upto(f.put(t), 2) if code & 4 else f.put(t) + offs(t, code)

def call(f, rng, callee, isgen):
    """Call which never returns; gives the line of the call."""
    k = rng.randrange(24)
    if isgen:
        if k < 4: return f.put("for const q in %s(x) { }" % callee)
        if k < 8:
            line = f.put("for const q in %s(x) {" % callee)
            f.ind += 1; fill(f, rng, rng.random() < 0.3); f.ind -= 1
            f.put("}")
            return line
        if k < 12: return f.put("const z = [%s(x)...]" % callee)
        return f.put("const z = %s(x)\n\nconst y = z()" % callee) + 2
    c = "%s(x)" % callee
    if k == 0: return f.put(c)
    if k == 1: return f.put("const z = " + c)
    if k == 2: return f.put("if %s { }" % c)
    if k == 3: return f.put("while %s { }" % c)
    if k == 4: return f.put("for const q in [%s] { }" % c)
    if k == 5: return f.put("switch %s {\n    case 1 { const q = 1 }\n}" % c)
    if k == 6: return f.put("print(1, %s)" % c)
    if k == 7: return f.put("const z = [1, %s]" % c)
    if k == 8: return upto(f.put("const z = {\n    a: 1,\n    b: %s,\n    c: 2 }" % c), 2)
    if k == 9: return f.put("const z = \"a\\(x)\\(%s)b\"" % c)
    if k == 10: return f.put("const z = 1 + %s" % c)
    if k == 11: return f.put("for const q in range(3) {\n    if q == 2 {\n        %s\n    }\n}" % c) + 2
    if k == 12: return upto(f.put("const z = [\n    1,\n    %s,\n    2 ]" % c), 2)
    if k == 13: return f.put("try {\n    throw 1\n}\ncatch const q {\n    %s\n}" % c) + 4
    if k == 14: return f.put("loop {\n    %s\n}" % c) + 1
    if k == 15: return f.put("with { release: fun { } } {\n    %s\n}" % c) + 1
    if k == 16: return f.put("return " + c)
    if k == 17: return upto(f.put("const z = x == void ?\n    %s :\n    1" % c), 1)
    if k == 18: return f.put("const z = (x == void) && %s" % c)
    if k == 19: return f.put("throw " + c)
    if k == 20: return f.put("assert " + c)
    if k == 21: return f.put("const z = %s.apply(void, [x])" % callee)
    if k == 22: return f.put("const z = %s(x)[0].a" % callee)
    return f.put("if x == void && %s { }\nelse if true { }" % c)

def build(rng):
    """Files and the backtrace expected: (file, line, function) from the innermost."""
    depth = rng.choice((0, 1, 1, 2, 3, 4, 6, 10, 25))
    nmod = rng.choice((0, 0, 1, 2, 3))
    mods = [File("m%d.kos" % i) for i in range(nmod)] + [File("main.kos")]
    place = sorted(rng.randrange(len(mods)) for _ in range(depth))
    frames, prev = [], None          # prev: (expression, is generator, file, name)
    how = rng.choice(("catch", "catch", "uncaught", "debug", "thread"))
    for m in mods:
        if rng.random() < 0.01: m.put("\n" * rng.choice((255, 32767, 65530, 66000)))
        m.head = m.put("import base.*\nimport debug")
    fi = 0
    done = [False] * len(mods)
    def imports(m):
        if prev and prev[2] is not m:
            m.put("import %s" % prev[2].name[:-4]) if rng.random() < 0.5 else m.put("import %s.%s" % (prev[2].name[:-4], prev[0]))
            return m.lines[-1]
    def ref(m, imp):
        if prev[2] is m: return prev[0]
        return prev[0] if imp.endswith("." + prev[0]) else "%s.%s" % (prev[2].name[:-4], prev[0])
    imps = {}
    def inner(f, m, top=False):
        """The body: calls the previous function, or throws."""
        f.ind += 1
        fill(f, rng, rng.random() < 0.02)
        many = rng.random() < 0.03 and [f.put("const many%d = [x]" % q) and "many%d" % q for q in range(rng.choice((30, 110, 120, 140, 200)))]
        if prev is None:
            line = f.put("throw debug.backtrace()") if how == "debug" else throw(f, rng)
        else:
            line = (call_top if top else call)(f, rng, ref(m, imps.get(m)), prev[1])
        if rng.random() < 0.8: fill(f, rng)
        if many: f.put("const many = [%s]" % ", ".join(many))
        f.ind -= 1
        return line
    # imports come first in each file: the functions called across files are known by their order
    for d in range(depth):
        m = mods[place[d]]
        if m not in imps: imps[m] = imports(m) or ""
        name = "g%d" % d
        kind = rng.randrange(16)
        top = m is not mods[-1]
        pub = "public " if top else ""
        fill2 = lambda: [m.put("") for _ in range(rng.choice((0, 0, 1, 3)))]
        fill2()
        gen = False
        if kind <= 2:
            m.put("%sfun %s(x)%s{" % (pub, name, rng.choice((" ", "\n")))); line = inner(m, m); m.put("}"); fname = name; expr = name
        elif kind == 3:
            m.put("%sconst %s = fun(x) {" % (pub, name)); line = inner(m, m); m.put("}"); fname = name; expr = name
        elif kind == 4 and prev is not None and not prev[1]:
            line = m.put("%sconst %s = x => (%s(x))" % (pub, name, ref(m, imps[m]))); fname = name; expr = name
        elif kind == 5:
            m.put("%sconst %s = {\n    a: 1,\n    meth%d: fun(x) {" % (pub, name, d)); line = inner(m, m); m.put("    },\n    b: 2 }"); fname = "meth%d" % d; expr = name + "." + fname
        elif kind == 6:
            m.put("%sclass %s {\n    constructor(x) {" % (pub, name)); line = inner(m, m, True); m.put("    }\n}"); fname = name; expr = name
        elif kind == 7:
            m.put("%sclass %s {\n    fun other(y) { return y }\n    fun meth%d(x) {" % (pub, name, d)); line = inner(m, m); m.put("    }\n}"); fname = "meth%d" % d; expr = "%s().%s" % (name, fname)
        elif kind == 8:
            m.put("%sfun %s(x) {" % (pub, name)); m.ind += 1
            m.put("fun in%d(x) {" % d); l0 = inner(m, m); m.put("}"); fill(m, rng); line = m.put("in%d(x)" % d); m.ind -= 1
            m.put("}"); frames.append((m, l0, "in%d" % d)); fname = expr = name
        elif kind == 9:
            m.put("%svar %s = void\n%s = fun(x) {" % (pub, name, name)); line = inner(m, m); m.put("}"); fname = "fun"; expr = name
        elif kind == 10:
            m.put("%sfun %s(x) {" % (pub, name))
            line = inner(m, m, True); m.put("    yield 1\n}"); fname = expr = name; gen = True
        elif kind == 11:
            m.put("%sfun %s(x) {\n    defer {" % (pub, name)); line = inner(m, m); m.put("    }\n    const zz = x\n}"); fname = expr = name
        elif kind == 12:
            m.put("%sfun %s(x, y = 5, r...) {" % (pub, name)); line = inner(m, m); m.put("}"); fname = expr = name
        elif kind == 13:
            # recursion, to several stacks
            n = max(1, rng.choice((1, 2, 10, 40) if how != "debug" else (1, 2)) - (len(frames) + depth - d) * 2)
            m.put("var left%d = %d\n%sfun %s(x) {" % (d, n, pub, name)); m.ind += 1
            l0 = m.put("if left%d {\n    left%d -= 1\n    %s(x)\n}" % (d, d, name)) + 2
            m.ind -= 1
            line = inner(m, m); m.put("}"); fname = expr = name
            frames.append((m, line, fname)); frames += [(m, l0, fname)] * (n - 1); line = l0
        else:
            m.put("%sfun %s(x) {" % (pub, name)); line = inner(m, m); m.put("}"); fname = expr = name
        frames.append((m, line, fname))
        prev = (expr if "." not in expr else expr, gen, m, fname)
        if "." in expr and place[d + 1:d + 2] != [place[d]] and (d + 1 < depth and place[d + 1] != place[d] or d + 1 == depth and m is not mods[-1]):
            # called from another file: through a plain function
            nm = "h%d" % d
            line = m.put("public fun %s(x) { return %s(x) }" % (nm, expr)); frames.append((m, line, nm)); prev = (nm, False, m, nm)
    m = mods[-1]
    if m not in imps: imps[m] = imports(m) or ""
    m.put("const x = [void][0]")
    fill(m, rng)
    show = "print(\"value\", e.value)\n    for const b in %s { print(\"@\", b.file, b.line, b.function) }"
    if how in ("catch", "debug"):
        m.put("try {"); m.ind += 1
        line = None
        if prev is None and how == "debug": line = m.put("throw debug.backtrace()")
        elif prev is None: line = throw(m, rng)
        else: line = call_top(m, rng, ref(m, imps[m]), prev[1])
        m.ind -= 1
        m.put("}\ncatch const e {\n    " + show % ("e.value" if how == "debug" else "e.backtrace") + "\n}")
        frames.append((m, line, "<global>"))
    elif how == "uncaught":
        line = throw(m, rng) if prev is None else call_top(m, rng, ref(m, imps[m]), prev[1])
        fill(m, rng)
        frames.append((m, line, "<global>"))
    else:
        m.put("fun thr(x) {"); m.ind += 1
        line = throw(m, rng) if prev is None else call_top(m, rng, ref(m, imps[m]), prev[1])
        m.ind -= 1
        m.put("}\nconst t = async thr(void)\nfor const i in range(10) { const z = i }\ntry { t.wait() }\ncatch const e {\n    " + show % "e.backtrace" + "\n}")
        frames.append((m, line, "thr"))
    return mods, frames, how

def call_top(f, rng, callee, isgen):
    while True:
        n = len(f.lines)
        line = call(f, rng, callee, isgen)
        if any(l.strip().startswith("return ") for l in f.lines[n:]): del f.lines[n:]
        else: return line

def parse(r, how, d):
    out = []
    if how == "uncaught":
        for l in r.etext().split("\n"):
            if l.strip().startswith("#"):
                fn, rest = l.split(" in '", 1)[1].split("' in ", 1)
                file, line = rest.rsplit(":", 1)
                out.append((os.path.basename(file), int(line), fn))
    else:
        for l in r.text().split("\n"):
            if l.startswith("@ "):
                _, file, line, fn = l.split(" ", 3)
                out.append((os.path.basename(file), int(line), fn))
    return out

def differs(got, want):
    """Index of the first frame which differs, or None."""
    for k in range(max(len(got), len(want))):
        g, w = got[k:k + 1], want[k:k + 1]
        if not g or not w: return k
        lo, hi = w[0][1] if isinstance(w[0][1], tuple) else (w[0][1], w[0][1])
        if g[0][0] != w[0][0] or g[0][2] != w[0][2] or not lo <= g[0][1] <= hi: return k

def check(c):
    b = {k: vlib.build(k) for k in ("asan", "rel", "mad")}
    root = vlib.scratch_path("c31")
    os.makedirs(root)
    def one(i):
        rng = c.subrng("bt", i)
        mods, frames, how = build(rng)
        d = os.path.join(root, "p%d" % i)
        os.makedirs(d)
        for m in mods:
            with open(os.path.join(d, m.name), "w") as fh: fh.write(m.text())
        cfg = "mad" if i % 50 == 7 else ("asan", "rel")[i & 1]
        r = vlib.run([b[cfg].kos, "main.kos"], cwd=d, timeout=120)
        shutil.rmtree(d)
        return i, mods, [(m.name, l, n) for m, l, n in frames], how, r, cfg
    for i, mods, want, how, r, cfg in vlib.pmap(one, range(c.n(1500, 40000))):
        if r.rc in (0, 1) and any("    left" in m.text() or "const many" in m.text() for m in mods) and ("value stack overflow\n" in r.text() or r.etext().startswith("Exception: stack overflow\n")):
            c.stat("programs too deep for the stack")
            continue
        got = [x for x in parse(r, how, None) if x[0] != "base.kos"]
        if how == "debug" and got[:1] and got[0][0] == "debug.kos": got = got[1:]
        c.case(tuple(m.text() for m in mods))
        c.stat("backtraces (%s)" % how); c.stat("frames compared", len(want)); c.stat("programs under " + cfg)
        ab = r.abnormal()
        k = differs(got, want)
        if ab or k is not None or (r.rc != 0) != (how == "uncaught"):
            k = k or 0
            c.violation("backtrace (%s): frame %d is %s, expected %s; exit %d %s\n%s" % (how, k, got[k:k + 1], want[k:k + 1], r.rc, ab or "", r.etext()[-1500:]),
                        dict({m.name: m.text() for m in mods}, **{"expected.txt": "\n".join(map(str, want)), "actual.txt": "\n".join(map(str, got))}))

if __name__ == "__main__": vlib.main(check, "C31", rule="random chains of calls of all kinds over several files, ended by an exception; its backtrace compared frame by frame with the lines where the generator put the calls; non-trivial: distinct program",
          assumptions=["a call written over several lines is not judged", "frames of the base module's functions are left out"])
