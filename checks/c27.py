"""C27: file system functions do to the file system what the operating system's calls define, and nothing else."""
import sys, os, stat, socket, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, Buf, klit, kstr

IMP = ("io", "fs")
PRE = r'''
fun TRY(f) {
    try { return f() } catch const e { return "threw" }
}
fun names(dir) {
    return sort([filter(x => x != "." && x != "..", fs.listdir(dir))...])
}
'''
NAMES = ["a", "b", "c", "dir", "file.txt", "łąka", "\u20ac\U0001f600", "x y", ".hid", "-n", "a.b.c", "n" * 100, "'q\"", "\u00e9"]
THREW = "threw"

def spell(rng, p, isdir):
    """The same path in other words."""
    r = rng.randrange(8)
    if r == 0: p = p.replace("/", "//")
    elif r == 1: p = p.replace("/", "/./")
    elif r == 2: p = p.replace("/", "\\")
    elif r == 3 and isdir: p += "/"
    return p

class Twin:
    """The operating system, applied to a directory of its own, as the reference."""
    def __init__(self, root): self.root, self.cwd = root, root
    def real(self, p):
        p = p.replace("\\", "/")
        return self.root + p[1:] if p.startswith("@") else os.path.join(self.cwd, p)
    def call(self, op, p, data=None):
        q = self.real(p)
        try:
            if op == "mkdir": os.mkdir(q); return True
            if op == "deep":
                at = p.replace("\\", "/").find("/", 1)
                while at > 0 and len(p) > 1:
                    self.ensure(self.real(p[:at])); at = p.replace("\\", "/").find("/", at + 1)
                self.ensure(q); return True
            if op == "rmdir": os.rmdir(q); return True
            if op == "remove": os.unlink(q); return True
            if op == "exists": return stat.S_ISREG(os.stat(q).st_mode)
            if op in ("lstat", "stat"):
                s = os.lstat(q) if op == "lstat" else os.stat(q)
                d = stat.S_ISDIR(s.st_mode)
                return ["directory" if d else "symlink" if stat.S_ISLNK(s.st_mode) else "file", 0 if d else s.st_size if not stat.S_ISLNK(s.st_mode) else 0]
            if op == "list": return sorted(os.listdir(q), key=lambda x: [ord(ch) for ch in x])
            if op == "chdir":
                os.listdir(q); self.cwd = os.path.realpath(q); return True
            if op == "create":
                with open(q, "wb") as f: f.write(data)
                return True
            if op == "read":
                with open(q, "rb") as f: return Buf(f.read())
        except FileNotFoundError:
            return False if op in ("rmdir", "remove", "exists") else THREW
        except OSError:
            return False if op == "exists" else THREW
    def ensure(self, q):
        try: os.mkdir(q)
        except FileExistsError:
            if not os.path.isdir(q): raise

def walk(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n); s = os.lstat(p)
            out[os.path.relpath(p, root)] = ("l", os.readlink(p)) if stat.S_ISLNK(s.st_mode) else ("d",) if stat.S_ISDIR(s.st_mode) else ("f", open(p, "rb").read())
    return out

def populate(rng, root):
    r = random.Random(rng.random())
    dirs = [root]
    for _ in range(r.randrange(0, 6)):
        p = os.path.join(r.choice(dirs), r.choice(NAMES))
        if os.path.lexists(p): continue
        k = r.randrange(4)
        if k == 0: os.mkdir(p); dirs.append(p)
        elif k == 1: open(p, "wb").write(bytes(r.randrange(256) for _ in range(r.randrange(50))))
        elif k == 2: os.symlink(r.choice(NAMES), p)
        else: os.symlink("..", p)
    return r

def history(rng, base, i, nops, c):
    ra, rb = os.path.join(base, "m%d" % i), os.path.join(base, "k%d" % i)
    seed = rng.random()
    for r in (ra, rb):
        os.mkdir(r); populate(random.Random(seed), r); 
        for d, ds, fs in os.walk(r):
            os.chmod(d, 0o777)
    t = Twin(ra)
    code, want = ["const R = []", "const ROOT = %s" % kstr(rb), "fs.chdir(ROOT)"], []
    def known():
        out = []
        for d, ds, fs in os.walk(ra):
            for n in ds + fs: out.append(os.path.relpath(os.path.join(d, n), ra))
        return out
    for _ in range(nops):
        c.stat("file system calls")
        op = rng.choice(["mkdir", "mkdir", "deep", "deep", "rmdir", "remove", "remove", "exists", "exists", "lstat", "stat", "list", "list", "chdir", "create", "create", "read", "cwd"])
        if op == "cwd":
            code.append("R.push(fs.cwd())"); want.append(rb + t.cwd[len(ra):]); continue
        ks = known()
        isdir = op in ("mkdir", "deep", "rmdir", "list", "chdir")
        if ks and rng.random() < 0.6: p = rng.choice(ks)
        else: p = "/".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.3 and ks: p = rng.choice(ks) + "/" + rng.choice(NAMES + [".."])
        if "\\" in p: continue
        absolute = rng.random() < 0.5
        if absolute: p = "@/" + p
        elif rng.random() < 0.5: p = os.path.relpath(os.path.join(ra, p), t.cwd)
        if rng.random() < 0.05: p = rng.choice([".", "..", "@", "@/.."])
        if op in ("rmdir", "remove") and p in ("..", "@/.."): continue
        # nothing outside the tree is touched
        if not (os.path.normpath(t.real(p)) + "/").startswith(ra + "/"): continue
        if "/../" in p or p.startswith("..") or "/.." in p:
            q = os.path.realpath(t.real(p))
            if not (q + "/").startswith(ra + "/"): continue
        q = os.path.realpath(t.real(p))
        if not (q + "/").startswith(ra + "/"): continue
        if op in ("rmdir", "remove") and q == ra: continue
        if op == "deep" and not absolute and p.startswith("."): pass
        # a directory in use as the current one may not vanish
        if op == "rmdir" and (t.cwd + "/").startswith(q + "/"): continue
        p = spell(rng, p, isdir) if not p.startswith("@") else "@" + spell(rng, p[1:], isdir)
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 100]))) if op == "create" else None
        if op == "create" and os.path.islink(t.real(p)): continue
        e = t.call(op, p, data)
        kp = "ROOT + %s" % kstr(p[1:]) if p.startswith("@") else kstr(p)
        call = {"mkdir": "fs.mkdir(%s) == (%s)", "deep": "fs.mkdir(%s, true) == (%s)", "rmdir": "fs.rmdir(%s)", "remove": "fs.remove(%s)", "exists": "fs.file_exists(%s)",
                "list": "names(%s)", "chdir": "fs.chdir(%s) == (%s)", "read": "io.open(%s, io.ro).read()"}.get(op)
        if op == "create": call = "io.create(%s).write(%s).close() != void" % (kp, klit(Buf(data)))
        elif op in ("lstat", "stat"): call = "do_stat(%s, %s)" % (kp, "true" if op == "stat" else "false")
        else: call = call % ((kp,) * call.count("%s"))
        code.append("R.push(TRY(() => (%s)))" % call); want.append(e)
        c.stat("calls that must fail" if e is THREW else "calls that must succeed")
    return "fun do_stat(p, follow) { const s = fs.stat(p, follow)\n return [s.type, s.type == \"file\" ? s.size : 0] }\n" + "\n".join(code) + "\nreturn R", want, ra, rb

def trees(c, b, n, base, tag=""):
    """Histories on a tree of directories; the results and the tree left."""
    rng = c.subrng("trees" + tag)
    base = os.path.join(base, "t" + tag)
    os.mkdir(base); os.chmod(base, 0o777)
    todo = [history(rng, base, i, rng.choice([5, 20, 40]), c) for i in range(n)]
    for _, _, ra, rb in todo:
        for d, ds, fs in os.walk(rb):
            if os.geteuid() == 0:
                os.lchown(d, vlib.NOBODY, vlib.NOBODY)
                for x in fs: os.lchown(os.path.join(d, x), vlib.NOBODY, vlib.NOBODY)
    kmodel.run_cases(c, b, [(code, want) for code, want, _, _ in todo], batch=10, prelude=PRE, mods=IMP, label="file system history")
    for code, want, ra, rb in todo:
        c.stat("directory trees compared afterwards")
        x, y = walk(ra), walk(rb)
        if x != y:
            diff = ["%s: expected %r, found %r" % (k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]
            c.violation("tree differs after the history\n%s" % "\n".join(diff[:20]), {"code.kos": code, "diff": "\n".join(diff)}, key="tree")

def stats(c, b, n, base):
    """All fields of stat, for every type of object and for times and sizes of any magnitude."""
    rng = c.subrng("stats")
    root = os.path.join(base, "stats"); os.mkdir(root); os.chmod(root, 0o777)
    os.mkdir(os.path.join(root, "fixed"))
    with open(os.path.join(root, "some"), "w") as f: f.write("12345")
    cases = []
    for i in range(n):
        p = os.path.join(root, "%d%s" % (i, rng.choice(NAMES)[:20]))
        k = i % 7
        if k in (0, 1):
            with open(p, "wb") as f: f.truncate(rng.choice([0, 1, 4096, 10 ** 6, 5 * 10 ** 9, (1 << 40) + 3]))
        elif k == 2: os.mkdir(p)
        elif k == 3: os.mkfifo(p)
        elif k == 4: os.symlink(rng.choice(["fixed", "some", "nowhere", "x" * 50]), p)
        elif k == 5:
            s = socket.socket(socket.AF_UNIX); s.bind(p) if len(p) < 100 else open(p, "w").close(); s.close()
        else: p = rng.choice(["/dev/null", "/dev/zero", "/dev/full"])
        if k < 4:
            os.utime(p, ns=tuple(rng.choice([0, 10 ** 9, rng.randrange(0, 4 * 10 ** 18), 1234567890123456789, 999, -10 ** 9 * rng.randrange(1, 10 ** 9)]) for _ in "am"))
            os.chmod(p, rng.choice([0o644, 0o777, 0o4755, 0o1777, 0o600]))
            if rng.random() < 0.3 and k < 2: os.link(p, p + "l")
        for follow in (False, True):
            try: s = os.stat(p) if follow else os.lstat(p)
            except OSError:
                cases.append(("fs.stat(%s, true)\nreturn 1" % kstr(p), EXC)); continue
            m = s.st_mode
            ty = next(n_ for f, n_ in ((stat.S_ISREG, "file"), (stat.S_ISDIR, "directory"), (stat.S_ISCHR, "char"), (stat.S_ISBLK, "device"), (stat.S_ISFIFO, "fifo"), (stat.S_ISLNK, "symlink"), (stat.S_ISSOCK, "socket")) if f(m))
            want = [ty, s.st_size, s.st_blocks, s.st_blksize, m, s.st_ino, s.st_dev, s.st_nlink, s.st_uid, s.st_gid]
            code = "const s = fs.stat(%s, %s)\n" % (kstr(p), str(follow).lower())
            fields = ["type", "size", "blocks", "block_size", "flags", "inode", "dev", "hard_links", "uid", "gid"]
            # documented as microseconds; one second of precision is allowed
            for f, ns in (("atime", s.st_atime_ns), ("mtime", s.st_mtime_ns), ("ctime", s.st_ctime_ns)):
                if f == "atime" and (k in (4, 6)): continue   # following a link reads it
                code += "const %s = s.%s - %d\n" % (f, f, ns // 1000)
                fields.append("(%s <= 0 && %s > -1000000)" % (f, f)); want.append(True)
            if k == 6: fields.append("device"); want.append([os.major(s.st_rdev), os.minor(s.st_rdev)])
            cases.append((code + "return [%s]" % ", ".join("s." + f if not f.startswith("(") else f for f in fields), want))
            c.stat("stat calls, " + ty)
    kmodel.run_cases(c, b, cases, batch=40, prelude=PRE, mods=IMP, label="stat")

def listings(c, b, n, base):
    """Directories of many entries, walked by several interleaved generators and threads."""
    rng = c.subrng("list")
    cases = []
    for i in range(n):
        p = os.path.join(base, "l%d" % i); os.mkdir(p); os.chmod(p, 0o777)
        k = rng.choice([0, 1, 7, 300, 1500])
        ns = set("%s%d" % (rng.choice(NAMES), j) for j in range(k))
        for x in ns: open(os.path.join(p, x), "w").close()
        want = sorted(ns, key=lambda x: [ord(ch) for ch in x])
        cases.append(("""const a = fs.listdir(%s)
const b = fs.listdir(%s)
const la = [] ; const lb = []
for const x in a { la.push(x)
 for const y in b { lb.push(y)
 break } }
for const y in b { lb.push(y) }
const ts = []
for const j in range(3) { ts.push(async names(%s)) }
const r = [sort(la)[2:], sort(lb)[2:]]
for const t in ts { r.push(t.wait()) }
return [r[0].size, r[1] == r[0], r[2] == r[3], r[3] == r[4], r[2]]""" % ((kstr(p),) * 3), None if False else [len(ns), True, True, True, want]))
        c.stat("directory entries listed", 5 * len(ns))
        # "." and ".." are among the sorted names, not always first
        code, w = cases[-1]
        cases[-1] = (code.replace("[sort(la)[2:], sort(lb)[2:]]", "[sort([filter(x => x != \".\" && x != \"..\", la)...]), sort([filter(x => x != \".\" && x != \"..\", lb)...])]"), w)
    cases.append(("for const x in fs.listdir(%s) { }\nreturn 1" % kstr(os.path.join(base, "none")), EXC))
    kmodel.run_cases(c, b, cases, batch=2, prelude=PRE, mods=IMP, label="listing")

def check(c):
    b = vlib.unprivileged(vlib.build("asan"))
    base = os.path.join(os.path.realpath(vlib.scratch()), "fs")
    os.mkdir(base); os.chmod(base, 0o777)
    trees(c, b, c.n(900, 8000), base)
    stats(c, b, c.n(420, 2800), base)
    listings(c, b, c.n(20, 160), base)
    # with a collection at every allocation
    trees(c, vlib.unprivileged(vlib.build("mad")), c.n(30, 400), base, "mad")

if __name__ == "__main__": vlib.main(check, "C27", rule="histories of file system calls (spelled with repeated, dotted, trailing and reversed separators, relative to changing directories), each result and the final tree compared with the operating system's own calls on a twin tree; stat of every type of object; directory listings by interleaved generators; non-trivial: distinct history",
          assumptions=["names are valid UTF-8 without backslashes (which the library treats as separators) or NUL"])
