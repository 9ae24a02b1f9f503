"""C23: every module runs once, in import order, and its globals are shared by all importers."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

class Throw(Exception):
    def __init__(self, what): self.what = what

class Mod:
    """A module file: ident (distinct in the program), key (how it is registered), file, imports and body."""

PRIV = ["", "public "]

def gen(rng):
    n = rng.choice((1, 2, 3, 4, 5, 7, 10, 16, 24))
    mods = []
    for i in range(n):
        m = Mod()
        m.id = "m%d" % i
        m.dir = rng.choice(("", "", "", "d1/", "d2/", "d1/s/", "_x/"))
        # same last name in several directories
        base = m.id if rng.random() < 0.7 else rng.choice(("q", "w"))
        m.key = m.dir + base
        m.where = rng.choice(("app", "app", "app", "kp1", "kp2"))
        m.shadow = rng.random() < 0.2
        m.bad = None
        if rng.random() < 0.12: m.bad = rng.choice(("syntax", "undef", "throw", "missing", "private", "throwfun", "throwlate"))
        m.pathonly = False
        if any(x.key == m.key for x in mods): m.key = m.dir + m.id
        mods.append(m)
    # modules only loaded by their paths, outside of the search paths
    for i in range(rng.choice((0, 0, 1, 2))):
        m = Mod()
        m.id = m.key = "p%d" % i
        m.dir, m.where, m.shadow, m.bad, m.pathonly = "", "out/o%d" % rng.randrange(2), False, None, True
        if rng.random() < 0.2: m.bad = "throw"
        mods.append(m)
    rng.shuffle(mods)
    cyc = rng.random() < 0.2
    for i, m in enumerate(mods):
        cand = [x for x in (mods if cyc else mods[i + 1:]) if not x.pathonly and x is not m]
        m.imports = []
        lasts = {}
        for t in rng.sample(cand, min(len(cand), rng.choice((0, 1, 1, 2, 3, 5)))):
            kind = rng.choice(("mod", "star", "list", "one", "mod"))
            last = t.key.split("/")[-1]
            if lasts.setdefault(last, t.key) != t.key and kind == "mod": kind = "list"
            if kind == "mod" and any(last == z.key.split("/")[-1] for z, _ in m.imports): kind = "list"
            m.imports.append((t, kind))
            if rng.random() < 0.1 and kind != "star": m.imports.append((t, "list2"))
        m.body = body(rng, m, mods, cyc)
    main = Mod()
    main.id, main.key, main.dir, main.where, main.shadow, main.bad, main.pathonly = "main", "main", "", "app", False, None, False
    main.imports = []
    lasts = {}
    cand = [x for x in mods if not x.pathonly]
    for t in rng.sample(cand, min(len(cand), rng.choice((0, 1, 2, 3, 4)))):
        kind = rng.choice(("mod", "star", "list", "one"))
        last = t.key.split("/")[-1]
        if kind == "mod" and (lasts.setdefault(last, t.key) != t.key): kind = "list"
        if kind == "mod" and any(last == z.key.split("/")[-1] for z, _ in main.imports): kind = "list"
        main.imports.append((t, kind))
    main.body = body(rng, main, mods, cyc)
    main.body += [("load", rng.choice(mods), "name") for _ in range(rng.choice((0, 2, 5)))]
    return main, mods

def body(rng, m, mods, cyc):
    out = []
    for _ in range(rng.choice((0, 1, 2, 4))):
        k = rng.randrange(5)
        if k == 0: out.append(("set", rng.randrange(100)))
        elif k == 1 and m.imports: out.append(("inc", rng.randrange(len(m.imports))))
        elif k == 2 and m.imports: out.append(("read", rng.randrange(len(m.imports))))
        elif k == 3:
            t = rng.choice(mods)
            if (t is not m or rng.random() < 0.3) and (m.id == "main" or rng.random() < 0.5): out.append(("load", t, "name"))
        elif k == 4:
            t = rng.choice(mods)
            if t is not m and m.id == "main": out.append(("load", t, "path"))
    return out

def loadname(t, style):
    if t.pathonly: return "./%s/%s.kos" % (t.where, t.key)
    if style == "path" and not t.dir and not t.shadow: return "./%s/%s.kos" % (t.where, t.key)
    return t.key

def source(m, nonce=""):
    o = ["import base.*\n"]
    I = m.id
    for t, kind in m.imports:
        T = t.id
        if kind == "mod": o.append("import %s\n" % t.key)
        elif kind == "one": o.append("import %s.inc_%s\nimport %s.v_%s\n" % (t.key, T, t.key, T))
        elif kind in ("list", "list2"): o.append("import %s: inc_%s, v_%s\n" % (t.key, T, T) if kind == "list" else "import %s: set_%s\n" % (t.key, T))
        else: o.append("import %s.*\n" % t.key)
    if m.bad == "missing": o.append("import no_such_module\n")
    if m.bad == "private" and m.imports: o.append("import %s.hidden_%s\n" % (m.imports[0][0].key, m.imports[0][0].id))
    o.append('print("run %s%s")\n' % (I, nonce))
    o.append("public var v_%s = 1\nvar hidden_%s = 7\n" % (I, I))
    o.append("public fun inc_%s { v_%s += 1; hidden_%s += 2; return [v_%s, hidden_%s] }\npublic fun set_%s(x) { v_%s = x }\n" % ((I,) * 7))
    if m.bad == "throwfun": o.append('fun boom { throw "boom %s" }\nboom()\n' % I)
    for st in m.body:
        if st[0] == "set": o.append("v_%s = %d\n" % (I, st[1]))
        elif st[0] in ("inc", "read"):
            t, kind = m.imports[st[1]]
            f, v = "inc_" + t.id, "v_" + t.id
            if kind == "mod": f, v = "%s.%s" % (t.key.split("/")[-1], f), "%s.%s" % (t.key.split("/")[-1], v)
            if kind in ("list2",): continue
            o.append('print("%s", %s)\n' % (I, f + "()..." if st[0] == "inc" else v))
        elif st[0] == "load":
            t = st[1]
            o.append('try { const lm = module.load("%s"); print("%s got", lm.get("inc_%s")()...) } catch const e { print("%s failed", e.value.starts_with("boom") ? e.value : "error") }\n' % (loadname(t, st[2]), I, t.id, I))
    if m.bad == "throw": o.append('throw "boom %s"\n' % I)
    if m.bad == "throwlate": o.append('void.nothing.at.all\n')
    if m.bad == "syntax": o.append("const = 5\n")
    if m.bad == "undef": o.append("print(no_such_variable)\n")
    o.append('print("end %s")\n' % I)
    return "".join(o)

class Sim:
    def __init__(self, main, mods, dirs):
        self.out, self.loaded, self.chain, self.steps = [], {}, [], 0
        self.dirs = dirs
        self.inconsistent = False
        self.count = 0
    def put(self, *a): self.out.append(" ".join(str(x) for x in a))
    def load(self, m, byname=True):
        self.steps += 1
        if self.steps > 3000: raise RuntimeError("too long")
        if m.key in self.chain: raise Throw("error")
        if m.key in self.loaded: return self.loaded[m.key]
        self.chain.append(m.key)
        try:
            inst = {"v": None, "h": None, "m": m}
            inst["deps"] = []
            if m.bad == "syntax": raise Throw("error")
            for t, kind in m.imports: inst["deps"].append(self.load(t))
            if m.bad in ("missing", "undef"): raise Throw("error")
            if m.bad == "private" and m.imports: raise Throw("error")
            # imported names must exist
        finally: self.chain.pop()
        self.loaded[m.key] = inst
        try: self.run(inst)
        except Throw:
            if self.loaded.get(m.key) is inst: del self.loaded[m.key]
            raise
        return inst
    def inc(self, inst):
        # functions of a module which has not got that far yet: its globals are void
        if inst["v"] is None: raise Throw("error")
        inst["v"] += 1; inst["h"] += 2
        return inst["v"], inst["h"]
    def run(self, inst):
        m = inst["m"]
        self.count += 1
        self.put("run", m.id)
        inst["v"], inst["h"] = 1, 7
        if m.bad == "throwfun": raise Throw("boom " + m.id)
        for st in m.body:
            if st[0] == "set": inst["v"] = st[1]
            elif st[0] in ("inc", "read"):
                t, kind = m.imports[st[1]]
                if kind == "list2": continue
                d = inst["deps"][st[1]]
                if st[0] == "inc": self.put(m.id, *self.inc(d))
                else: self.put(m.id, "void" if d["v"] is None else d["v"])
            elif st[0] == "load":
                t = st[1]
                try:
                    name = loadname(t, st[2])
                    if "/" in name and not name.startswith("./") and name not in self.loaded and name not in self.chain: raise Skip()
                    self.put(m.id, "got", *self.inc(self.load(t)))
                except Throw as e: self.put(m.id, "failed", e.what)
        if m.bad == "throw": raise Throw("boom " + m.id)
        if m.bad == "throwlate": raise Throw("error")
        self.put("end", m.id)

class Skip(Exception):
    """Loading by a name with a directory a module which was not imported: not specified."""

def write(d, main, mods, rng):
    files = {}
    for m in mods + [main]:
        w = m.where
        files["%s/%s.kos" % (w, m.key)] = source(m)
        if m.shadow:
            # a later search path holds another file of that name, which must not be found
            later = {"app": ["kp1", "kp2"], "kp1": ["kp2"], "kp2": []}[w]
            for x in later: files["%s/%s.kos" % (x, m.key)] = 'import base.*\nprint("SHADOW")\n'
    return files

def check(c):
    b = {k: vlib.build(k) for k in ("asan", "rel", "mad")}
    root = vlib.scratch_path("c23")
    os.makedirs(root)
    def one(i):
        rng = c.subrng("graph", i)
        main, mods = gen(rng)
        sim = Sim(main, mods, None)
        ok = True
        try:
            sim.load(main)
        except Throw: ok = False
        except (Skip, RuntimeError): return None
        files = write(None, main, mods, rng)
        d = os.path.join(root, "g%d" % i)
        for f, s in files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh: fh.write(s)
        cfg = "mad" if i % 40 == 7 and len(mods) < 4 else ("asan", "rel")[i & 1]
        r = vlib.run([b[cfg].kos, "app/main.kos"], cwd=d, timeout=120, env={"KOSPATH": "kp1:kp2"} if i % 3 else {"KOSPATH": d + "/kp1:" + d + "/kp2"})
        res = (i, files, sim.out, ok, r, sim.count, len(mods), sum(len(m.imports) for m in mods), main, cfg)
        shutil.rmtree(d)
        return res
    runs = 0
    for x in vlib.pmap(one, range(c.n(1200, 30000))):
        if x is None:
            c.stat("graphs not run (unspecified loads)")
            continue
        i, files, out, ok, r, count, nm, ni, main, cfg = x
        c.case(tuple(sorted(files.items())))
        c.stat("graphs under " + cfg)
        c.stat("modules executed", count)
        c.stat("import statements", ni)
        if not ok: c.stat("programs which must fail")
        c.stat("caught load failures", sum(" failed" in o for o in out))
        got = [l for l in r.text().split("\n") if l]
        ab = r.abnormal()
        if got != out or ab or (r.rc == 0) != ok:
            k = next((j for j in range(max(len(got), len(out))) if got[j:j + 1] != out[j:j + 1]), 0)
            c.violation("modules execute or share state differently: line %d is %r, expected %r; exit %d %s\n%s" % (k, got[k:k + 1], out[k:k + 1], r.rc, ab or "", r.etext()[-1500:]),
                        dict({f.replace("/", "__"): s for f, s in files.items()}, **{"expected.txt": "\n".join(out), "actual.txt": "\n".join(got)}))
    # directed: names in the way of each other
    def direct(files, expect, key, rc=0):
        d = os.path.join(root, "d")
        for f, s in files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh: fh.write(s)
        r = vlib.run([b["asan"].kos, "main.kos"], cwd=d, timeout=60)
        shutil.rmtree(d)
        c.case(key)
        got = r.text().split()
        if r.abnormal() or (r.rc == 0) != (rc == 0) or got != expect:
            c.violation("%s: printed %s, expected %s, exit %d %s" % (key, got, expect, r.rc, r.etext()[-800:]), {f.replace("/", "__"): s for f, s in files.items()}, key=key)
    M = lambda n: "import base.*\npublic const x = %d\nprint(%d)\n" % (n, n)
    direct({"d1/m.kos": M(1), "d2/m.kos": M(2), "main.kos": "import base.*\nimport d1/m\nimport d2/m\nprint(m.x)\n"}, ["1", "2"], "import of two modules under one name", 1)
    direct({"d1/m.kos": M(1), "d2/m.kos": M(2), "main.kos": "import base.*\nimport d1/m\nimport d2/m.x\nprint(m.x, x)\n"}, ["1", "2", "1", "2"], "two modules of the same last name")
    direct({"d1/m.kos": M(1), "d2/m.kos": M(2), "main.kos": "import base.*\nprint(module.load(\"./d1/m.kos\").get(\"x\"))\nprint(module.load(\"./d2/m.kos\").get(\"x\"))\n"},
           ["1", "1", "2", "2"], "module.load of a path whose last name is already taken")
    # the search paths reported are those searched, in their order
    for i in range(c.n(12, 200)):
        rng = c.subrng("paths", i)
        d = os.path.join(root, "s%d" % i)
        dirs = ["k%d" % k for k in range(rng.choice((0, 1, 2, 3, 6)))]
        rng.shuffle(dirs)
        kp = [rng.choice((x, os.path.join(d, x))) for x in dirs]
        have = {"u%d" % k: [x for x in dirs + ["app"] if rng.random() < 0.4] for k in range(4)}
        files = {}
        for u, l in have.items():
            for x in l: files["%s/%s.kos" % (x, u)] = "public const where = \"%s\"\n" % x
        files["app/main.kos"] = """import base.*
import kos
const p = kos.search_paths()
for const x in p { print(x) }
p.resize(0)
kos.search_paths().push(\"nowhere\")
print(kos.search_paths().size)
for const u in ["u0", "u1", "u2", "u3"] {
    try { print(u, module.load(u).get("where")) } catch const e { print(u, "none") }
}
"""
        for f, t in files.items():
            os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh: fh.write(t)
        r = vlib.run([b["asan"].kos, "app/main.kos"], cwd=d, timeout=60, env={"KOSPATH": ":".join(kp)} if kp else None)
        got = r.text().split("\n")
        n = next((k for k, x in enumerate(got) if x.isdigit()), 0)
        known = [x for x in got[:n] if x.startswith("k") or x.startswith(d)]
        want = [os.path.realpath(d) + "/app" if d != os.path.realpath(d) else d + "/app"] + kp
        exp = [str(n)]
        for u in sorted(have):
            l = [x for x in ["app"] + dirs if x in have[u]]
            exp.append("%s %s" % (u, l[0] if l else "none"))
        c.case(("paths", i)); c.stat("lookups over search paths", len(have))
        if r.abnormal() or r.rc or known != want or got[n:-1] != exp:
            c.violation("search paths %s, expected %s; lookups %s, expected %s; exit %d %s" % (known, want, got[n:], exp, r.rc, r.etext()[-800:]), {f.replace("/", "__"): t for f, t in files.items()}, key="paths")
        shutil.rmtree(d)

if __name__ == "__main__": vlib.main(check, "C23", rule="random module graphs over several directories and search paths, run by the real interpreter, compared event by event with a model of module loading; non-trivial: distinct set of files",
          assumptions=["a name with a directory is only given to module.load() for a module already imported", "modules are loaded from one thread"])
