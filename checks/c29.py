"""C29: spawned processes get exactly what was asked for; their results are reported exactly; nothing is left behind."""
import sys, os, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, klit, kstr

PRE = r'''
fun TRY(f) {
    try { return f() } catch const e { return "threw" }
}
fun ST(p) { const s = p.wait()
    return [s.status, s.signal, s.stopped] }
fun DROP(prog, args) {
    os.spawn(prog, args)
    return void
}
fun ZOMBIES(prog) {
    # the number of zombies must settle at 0
    var n = -1
    for const i in range(10) {
        kos.collect_garbage()
        n = os.spawn(prog, ["-", "z"]).wait().status
        if n == 0 { break }
    }
    return n
}
'''
IMP = ("os", "io", "kos", "threads")
WORDS = ["a", "", " ", "x y", "'", "\"", "\\", "$HOME", "*", "łąka", "\u20ac", "\U0001f600", "--", "-x", "a=b", "\n", "\t", "n" * 300, "1", "%s%n", ";ls", "|"]

def child():
    exe = os.path.join(vlib.scratch(), "child")
    if not os.path.exists(exe):
        subprocess.run(["cc", "-O1", "-o", exe, os.path.join(vlib.VERIF, "native", "child.c")], check=True)
    return exe

def parse(path):
    r = {"arg": [], "env": [], "fd": [], "in": None, "cwd": None, "pid": None}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("arg", "env"): r[k].append(bytes.fromhex(v))
        elif k == "fd": r[k].append(int(v))
        elif k in ("in", "cwd"): r[k] = bytes.fromhex(v)
        elif k == "pid": r[k] = int(v)
    return r

def word(rng): return rng.choice(WORDS) if rng.random() < 0.9 else "".join(rng.choice("ab c\u20ac'") for _ in range(rng.randrange(2000)))

def arguments(c, b, n, exe):
    rng = c.subrng("args")
    cases, look = [], []
    for i in range(n):
        rep = vlib.scratch_path(".rep")
        args = [word(rng) for _ in range(rng.choice([0, 1, 2, 5, 20, 200 if i % 20 == 0 else 3]))]
        env = {}
        for _ in range(rng.choice([0, 0, 1, 3, 12])):
            env[rng.choice(["A", "B", "LONG_NAME", "ł", "HOME", "LC_ALL", "x.y", "VAR%d" % rng.randrange(20)])] = word(rng).replace("\0", "")
        inherit = rng.random() < 0.5
        cwd = rng.choice(["", vlib.scratch(), "/", "/usr/bin"])
        how, st = rng.choice([("e%d" % k, [k, None, False]) for k in (0, 1, 2, 77, 127, 128, 200, 255)] + [("s%d" % k, [128 + k, k, False]) for k in (1, 9, 15, 10, 14)])
        kenv = rng.choice(["{}", "void"]) if not env and inherit else "{" + ", ".join("%s: %s" % (kstr(k), kstr(v)) for k, v in env.items()) + "}"
        if kenv == "void": kenv = "{}"
        code = "const p = os.spawn(%s, [%s], %s, %s, %s)\nconst pid = p.pid\nconst s = ST(p)\nreturn [s, pid == p.pid && typeof pid == \"integer\", TRY(() => p.wait())]" % (
            kstr(exe), ", ".join(map(kstr, [rep, how, "-"] + args)), kenv, kstr(cwd), "true" if inherit else "false")
        cases.append((code, [st, True, "threw"]))
        look.append((code, rep, args, env, inherit, cwd, how))
        c.case((tuple(args), tuple(sorted(env.items())), inherit, how)); c.stat("processes spawned with given arguments")
    kmodel.run_cases(c, b, cases, batch=12, prelude=PRE, mods=IMP, label="spawn", timeout=90)
    base = {k.encode(): v.encode("utf8", "surrogateescape") for k, v in vlib.BASE_ENV.items()}
    for code, rep, args, env, inherit, cwd, how in look:
        if not os.path.exists(rep): continue   # (the exit status has shown that)
        r = parse(rep)
        exp_args = [exe.encode(), rep.encode(), how.encode(), b"-"] + [a.encode() for a in args]
        e = dict(base) if inherit else {}
        e.update({k.encode(): v.encode() for k, v in env.items()})
        exp_env = sorted(k + b"=" + v for k, v in e.items())
        bad = None
        if r["arg"] != exp_args: bad = "arguments received differ from those given: %r, not %r" % (r["arg"][4:], exp_args[4:])
        elif sorted(r["env"]) != exp_env: bad = "environment received differs: %r" % (sorted(set(r["env"]) ^ set(exp_env))[:4] or "duplicates",)
        elif os.path.realpath(r["cwd"]) != os.path.realpath((cwd or os.getcwd()).encode()): bad = "current directory is %r, not %r" % (r["cwd"], cwd)
        elif r["fd"] != [0, 1, 2]: bad = "the process inherits open files %r" % r["fd"]
        if bad: c.violation("spawned process: " + bad[:300], {"case.kos": kmodel_script(code)}, key="args")
        os.unlink(rep)

def kmodel_script(code): return "".join("import %s\n" % m for m in IMP) + kmodel.script_of([(code, 0)], PRE)

def histories(c, b, n, exe):
    """Several children at once; failing attempts and collections in between must not take any result away."""
    rng = c.subrng("histories")
    noexec = os.path.join(vlib.scratch(), "noexec"); open(noexec, "w").write("#!/bin/sh\n"); os.chmod(noexec, 0o644)
    junk = os.path.join(vlib.scratch(), "junk"); open(junk, "w").write("\x7fELFjunk"); os.chmod(junk, 0o755)
    cases = []
    for i in range(n):
        L, want, live, gone, k = ["const R = []", "const P = []"], [], [], [], 0
        for _ in range(rng.choice([4, 8, 14])):
            op = rng.choice(["spawn", "spawn", "spawn", "fail", "fail", "wait", "wait", "drop", "gc", "again", "nap"])
            if op == "spawn":
                code = rng.randrange(256); ms = rng.choice([0, 0, 5, 40])
                sig = rng.choice([None, None, 15, 9])
                L.append("P.push(os.spawn(%s, [\"-\", \"n%d\", \"%s\"]))" % (kstr(exe), ms, "e%d" % code if sig is None else "s%d" % sig))
                live.append((k, [code, None, False] if sig is None else [128 + sig, sig, False])); k += 1
                c.stat("children")
            elif op == "fail":
                L.append("R.push(TRY(() => os.spawn(%s)))" % rng.choice([
                    '"no-such-program-anywhere"', kstr(noexec), kstr(junk), '%s, ["-"], {}, "/no/such/dir"' % kstr(exe), '%s, ["-", 5]' % kstr(exe), '%s, ["-"], {"A": 1}' % kstr(exe),
                    '%s, ["-"], {"A=B": "x"}, "", false' % kstr(exe), '"/no/such/program"', '%s, "x"' % kstr(exe), '%s, [], {}, "", 1' % kstr(exe), '%s, [], {}, "", true, 5' % kstr(exe)]))
                want.append("threw"); c.stat("failing attempts")
            elif op == "wait" and live:
                j, st = live.pop(rng.randrange(len(live)))
                L.append("R.push(TRY(() => ST(P[%d])))" % j); want.append(st); gone.append(j)
            elif op == "again" and gone:
                L.append("R.push(TRY(() => ST(P[%d])))" % rng.choice(gone)); want.append("threw")
            elif op == "drop": L.append("DROP(%s, [\"-\", \"n%d\"])" % (kstr(exe), rng.choice([0, 0, 10, 30])))
            elif op == "gc": L.append("kos.collect_garbage()")
            elif op == "nap": L.append("threads.sleep(0.01)" if HAVE_SLEEP else "os.spawn(%s, [\"-\", \"n15\"]).wait()" % kstr(exe))
        if rng.random() < 0.5:   # the rest is waited for by threads of its own
            rng.shuffle(live)
            if live:
                L.append("const T = []")
                L.append("fun wt(p) { return TRY(() => ST(p)) }")
                for j, st in live: L.append("T.push(async wt(P[%d]))" % j)
                L.append("kos.collect_garbage()")
                L.append("for const t in T { R.push(t.wait()) }")
                want += [st for _, st in live]
                c.stat("waits in competing threads", len(live))
        else:
            for j, st in live: L.append("R.push(TRY(() => ST(P[%d])))" % j); want.append(st)
        L.append("P.resize(0)")
        L.append("R.push(ZOMBIES(%s))" % kstr(exe)); want.append(0)
        L.append("return R")
        cases.append(("\n".join(L), want)); c.case(("history", i, len(L)))
    # many processes nobody waits for
    for i in range(max(2, n // 30)):
        m = rng.choice([1, 3, 33, 40, 70])
        cases.append(("for const i in range(%d) { DROP(%s, [\"-\", string(\"n\", 50 + i * 3)])\nif i %% 7 == 0 { kos.collect_garbage() } }\nkos.collect_garbage()\nreturn ZOMBIES(%s)" % (m, kstr(exe), kstr(exe)), 0))
        c.stat("children nobody waits for", m); c.case(("abandoned", i, m))
    # stopped processes
    for i in range(max(2, n // 60)):
        cases.append(("const p = os.spawn(%s, [\"-\", \"t\", \"e7\"])\nconst a = ST(p)\nos.spawn(\"/bin/kill\", [\"-CONT\", string(p.pid)]).wait()\nreturn [a, ST(p), TRY(() => ST(p))]" % kstr(exe),
                      [[128 + 19, 19, True], [7, None, False], "threw"]))
        c.stat("stopped and continued processes"); c.case(("stopped", i))
    kmodel.run_cases(c, b, cases, batch=4, prelude=PRE, mods=IMP, label="processes", timeout=60)
HAVE_SLEEP = False

def streams(c, b, n, exe):
    """Redirections: every byte appears where it was sent to, once."""
    rng = c.subrng("streams")
    todo = []
    for i in range(n):
        d = vlib.scratch_path("d"); os.mkdir(d)
        fin, fo, fe = d + "/in", d + "/out", d + "/err"
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 100, 70000])))
        open(fin, "wb").write(data)
        si = rng.choice(["void", "file", "stdin", "pipe"]); so = rng.choice(["void", "file", "stdout", "stderr"]); se = rng.choice(["void", "file", "stdout", "stderr", "same"])
        parent = bytes(rng.randrange(256) for _ in range(50))
        rep = d + "/rep"
        L = ["import base.*", "import io", "import os",
             "const fi = io.open(%s, io.ro)" % kstr(fin), "const fo = io.create(%s)" % kstr(fo), "const fe = io.create(%s)" % kstr(fe)]
        before = rng.choice(["", "", "before"])
        if before: L.append('io.stdout.write("before")')   # stays in a buffer meanwhile
        if rng.random() < 0.4: L.append('try { os.spawn(%s, ["-"], {}, "/no/such/dir") } catch const e { }' % kstr(exe))
        if before and rng.random() < 0.5: L.append("io.stdout.flush()")
        if si == "pipe": L.append("const pp = io.pipe()")
        kin = {"void": "void", "file": "fi", "stdin": "io.stdin", "pipe": "pp.read"}[si]
        kout = {"void": "void", "file": "fo", "stdout": "io.stdout", "stderr": "io.stderr"}[so]
        kerr = {"void": "void", "file": "fe", "stdout": "io.stdout", "stderr": "io.stderr", "same": kout}[se]
        L.append("const p = os.spawn(%s, [%s, \"r\", \"wOUT\", \"WERR\", \"wout\"], {}, \"\", true, %s, %s, %s)" % (kstr(exe), kstr(rep), kin, kout, kerr))
        if si == "pipe":
            L.append("const data = io.open(%s, io.ro).read()\npp.read.close()\nif data.size { pp.write.write(data) }\npp.write.close()" % kstr(fin))
        L.append("const s = p.wait()\nif s.status != 0 { throw \"status\" }")
        L.append('io.stdout.write("after")')
        text = "\n".join(L) + "\n"
        dest = {"void": None, "file": "file", "stdout": "O", "stderr": "E"}
        o = {"void": "O", "file": "fo", "stdout": "O", "stderr": "E"}[so]
        e = {"void": "E", "file": "fe", "stdout": "O", "stderr": "E", "same": None}[se]
        if se == "same": e = "E" if so == "void" else o
        todo.append((text, data, fo, fe, rep, o, e, before, d)); c.case((si, so, se, before, len(data))); c.stat("redirections")
    def one(t):
        return vlib.run_script(b, t[0], stdin=t[1], timeout=60)
    for t, r in zip(todo, vlib.pmap(one, todo)):
        text, data, fo, fe, rep, o, e, before, d = t
        got = {"O": r.out, "E": r.err, "fo": open(fo, "rb").read(), "fe": open(fe, "rb").read()}
        if r.abnormal() or r.rc != 0:
            c.violation("redirection: %s" % (r.abnormal() or "exit status %d: %s" % (r.rc, r.err[:200])), {"redirect.kos": text}, key="redirect"); continue
        for k in got:
            s = b"OUTERRout" if o == e == k else b"OUTout" if o == k else b"ERR" if e == k else b""
            ok = [s]
            if k == "O":  # the parent's own output is buffered, so its order with the child's is open
                ok = [before.encode() + s + b"after", s + before.encode() + b"after"]
            if got[k] not in ok:
                c.violation("redirection: %s holds %r instead of %r" % ({"O": "standard output", "E": "standard error", "fo": "the output file", "fe": "the error file"}[k], got[k][:120], ok[0]), {"redirect.kos": text}, key="redirect"); break
        else:
            exp_in = data if "void" not in (0,) else None
            p = parse(rep)
            if p["in"] != data: c.violation("redirection: the process read %d bytes, %r..., instead of %d" % (len(p["in"] or b""), (p["in"] or b"")[:40], len(data)), {"redirect.kos": text}, key="redirect")
            elif p["fd"] != [0, 1, 2]: c.violation("redirection: the process inherits open files %r" % p["fd"], {"redirect.kos": text}, key="redirect")

def search(c, b, n, exe):
    """Programs are looked for in the directories of PATH, in order, and nowhere else."""
    rng = c.subrng("path")
    import shutil
    root = vlib.scratch_path("path"); os.mkdir(root)
    dirs = []
    for i in range(4):
        d = os.path.join(root, "d%d" % i); os.mkdir(d); dirs.append(d)
        for j in range(4):
            if (i + 1) & (1 << j) or j == 3 - i:
                with open(d + "/prog%d" % j, "w") as f: f.write("#!/bin/sh\nexit %d\n" % (10 * i + j + 1))
                os.chmod(d + "/prog%d" % j, 0o755)
    os.mkdir(dirs[0] + "/progdir")
    todo = []
    for i in range(n):
        path = [rng.choice(dirs + ["/no/such", root]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        rest = rng.choice(dirs)
        j = rng.randrange(4)
        exp = next((10 * dirs.index(d) + j + 1 for d in path if d in dirs and os.path.exists(d + "/prog%d" % j)), None)
        prog = "prog%d" % j
        if rng.random() < 0.15: prog, exp = rng.choice([("progdir", None), (dirs[0] + "/prog0", 1 if os.path.exists(dirs[0] + "/prog0") else None), ("/prog1", None)])
        text = "import base.*\nimport io\nimport os\nvar r = -1\ntry { r = os.spawn(%s).wait().status } catch const e { }\nio.stdout.print(r)\nio.stdout.print(os.getenv(\"ZZ_LAST\") == \"a:%s:b\", os.getenv(\"NO_SUCH_VAR\"), os.getenv(\"NO_SUCH_VAR\", 7))\n" % (kstr(prog), rest)
        todo.append((text, ":".join(path), rest, -1 if exp is None else exp)); c.case((prog, tuple(path))); c.stat("programs looked for in PATH")
    def one(t): return vlib.run_script(b, t[0], env={"PATH": t[1], "ZZ_LAST": "a:%s:b" % t[2]}, cwd=root, timeout=60)
    for t, r in zip(todo, vlib.pmap(one, todo)):
        exp = ("%d\ntrue void 7\n" % t[3]).encode()
        if r.abnormal() or r.rc or r.out != exp:
            c.violation("search of PATH=%s: %s" % (t[1], r.abnormal() or "%r instead of %r" % (r.out, exp)), {"path.kos": t[0]}, key="path")

def check(c):
    b = vlib.build("asan")
    exe = child()
    arguments(c, b, c.n(400, 4000), exe)
    histories(c, b, c.n(480, 6000), exe)
    streams(c, b, c.n(300, 3000), exe)
    search(c, b, c.n(120, 1000), exe)

if __name__ == "__main__": vlib.main(check, "C29", rule="spawned processes report the arguments, environment, directory, open files and input they got; histories of children, failing attempts, abandoned objects and collections, each status compared, remaining zombies counted; non-trivial: distinct set of arguments, history or redirection",
          assumptions=["a child spawned while another thread is creating a pipe may inherit that pipe for a moment; not judged", "strings as stdin are not judged"])
