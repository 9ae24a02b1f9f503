"""C26: files and pipes hold exactly the bytes written; positions, sizes and line reading agree with them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, Buf, klit, kstr

PRE = r'''
import io
import threads
import kos
fun TRY(f) {
    try { return f() } catch const e { return "threw" }
}
'''
IMP = ("io", "threads", "kos")
PRE = PRE.replace("import io\nimport threads\nimport kos\n", "")
EOLS = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
ALPH = ["a", "b", " ", "é", "ł", "\u20ac", "\U0001f600", "\n", "\r", "\r\n", "\v", "\x85", "\u2028", "\0", "xyz", "line\n", "\t", "\x1d"]

def split_lines(s, keep):
    out, cur, i = [], "", 0
    while i < len(s):
        ch = s[i]
        if ch in EOLS:
            end = ch
            if ch == "\r" and s[i + 1:i + 2] == "\n": end = "\r\n"
            out.append(cur + (end if keep else "")); cur = ""
            i += len(end)
        else:
            cur += ch; i += 1
    if cur: out.append(cur)
    return out

def text(rng, n):
    style = rng.randrange(4)
    if style == 0: return "".join(rng.choice(ALPH) for _ in range(n))
    if style == 1: return "".join(rng.choice("ab\n") for _ in range(n))
    if style == 2: return "".join(rng.choice(["é", "\u20ac", "\U0001f600", "\r\n", "x"]) for _ in range(n))
    return "x" * n + rng.choice(["", "\n", "\r", "\r\n", "é"])

def pval(rng):
    """A value and how print shows it."""
    r = rng.randrange(6)
    if r == 0: return "void", "void"
    if r == 1:
        b = rng.random() < 0.5
        return str(b).lower(), str(b).lower()
    if r == 2:
        v = rng.randrange(-1000, 1000)
        return str(v), str(v)
    s = text(rng, rng.randrange(0, 6))
    return kstr(s), s

class File:
    """A file open through one handle: its bytes and the position of the handle."""
    def __init__(self, data=b""): self.d, self.pos, self.append, self.ro = bytearray(data), 0, False, False
    def write(self, b):
        if not b: return
        if self.append: self.pos = len(self.d)
        if self.pos > len(self.d): self.d += bytes(self.pos - len(self.d))
        self.d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
    def read(self, n):
        r = bytes(self.d[self.pos:self.pos + n])
        self.pos += len(r)
        return r

def history(rng, path, nops, c):
    """One file, one handle at a time: a sequence of operations with the expected result of each."""
    f = File()
    code, want = ["const R = []", "var f = io.create(%s)" % kstr(path)], []
    state = {"eof": False, "fresh_append": False, "open": True}
    def op(expr, exp):
        code.append("R.push(TRY(() => (%s)))" % expr); want.append(exp)
    def seek(p):
        if rng.random() < 0.5: op("f.seek(%d).position" % p, p if p >= 0 else len(f.d) + p)
        else:
            code.append("f.position = %d" % p)
        f.pos = p if p >= 0 else len(f.d) + p
        state["eof"] = False; state["fresh_append"] = False
    for _ in range(nops):
        k = rng.randrange(16)
        c.stat("file operations")
        if not state["open"]:
            op(rng.choice(["f.write(\"x\")", "f.read()", "f.read_line()", "f.position", "f.size", "f.seek(0)", "f.print(1)", "f.flush()", "f.eof", "f.resize(3)", "f.fd", "f.lock()"]), "threw")
            k = 15
        if k <= 3:
            if f.ro:
                op("f.write(\"x\").position", "threw"); seek(0); continue
            vals, data = [], b""
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                if rng.random() < 0.5:
                    s = text(rng, rng.choice([0, 1, 3, 10, 300])); vals.append(kstr(s)); data += s.encode()
                else:
                    b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 7, 300, 2000]))); vals.append(klit(Buf(b))); data += b
            if data: state["fresh_append"] = False
            f.write(data)
            op("f.write(%s) == f" % ", ".join(vals), True)
        elif k == 4:
            if f.ro: continue
            vs = [pval(rng) for _ in range(rng.randrange(0, 4))]
            f.write((" ".join(v[1] for v in vs) + "\n").encode())
            state["fresh_append"] = False
            op("f.print(%s) == f" % ", ".join(v[0] for v in vs), True)
        elif k == 5:
            if f.ro: continue
            vs = [pval(rng) for _ in range(rng.randrange(0, 4))]
            f.write("".join(v[1] + "\n" for v in vs).encode())
            if vs: state["fresh_append"] = False
            code.append("f.print_lines([%s])" % ", ".join(v[0] for v in vs))
        elif k in (6, 7):
            if state["fresh_append"]: continue
            n = rng.choice([0, 1, 2, 3, 5, 10, 100, 5000])
            if rng.random() < 0.5:
                if state["eof"]: continue
                n = max(n, 1)
                r = f.read(n)
                if len(r) < n: state["eof"] = True
                pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3, 200])))
                if rng.random() < 0.5: op("f.read_some(%d)" % n, Buf(r))
                else: op("f.read_some(%d, %s)" % (n, klit(Buf(pre))), Buf(pre + r))
            else:
                if state["eof"]: continue
                if rng.random() < 0.3:
                    r = f.read(1 << 30); state["eof"] = True
                    op("f.read()", Buf(r))
                else:
                    pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3, 200])))
                    r = f.read(n)
                    if len(r) < n: state["eof"] = True
                    op("f.read(%d, %s)" % (n, klit(Buf(pre))), Buf(pre + r))
            op("f.eof", state["eof"])
        elif k == 8:
            if state["fresh_append"] or state["eof"]: continue
            at = bytes(f.d).find(b"\n", f.pos)
            line = bytes(f.d[f.pos:at + 1 if at >= 0 else len(f.d)])
            try: s = line.decode()
            except UnicodeDecodeError: continue
            if len(s) > 60000: continue
            f.pos += len(line)
            op("f.read_line(%s)" % rng.choice(["", "", "1", "2", "3", "10", str(len(line) or 1), str(len(line) + 1)]), s)
            if at < 0: seek(f.pos)
        elif k == 9:
            if f.ro or state["fresh_append"]: pass
            try: s = bytes(f.d[f.pos:]).decode()
            except UnicodeDecodeError: continue
            if state["eof"] or state["fresh_append"]: continue
            if any(len(x) > 60000 for x in split_lines(s, True)): continue
            keep = rng.random() < 0.5
            gran = rng.choice(["", ", 1", ", 2", ", 3", ", 4", ", 5", ", 7", ", 4096", ", 100", ", 0"])
            lines = split_lines(s, keep)
            if lines and rng.random() < 0.2:
                n = rng.randrange(1, len(lines) + 1)
                code.append("R.push(TRY(fun { const it = f.read_lines(%s%s)\n const a = []\n while a.size < %d { a.push(it()) }\n return a }))" % (str(keep).lower(), gran, n))
                want.append(lines[:n])
                seek(rng.randrange(0, len(f.d) + 1))
            else:
                op("[f.read_lines(%s%s)...]" % (str(keep).lower(), gran), lines)
                f.pos = len(f.d)
                seek(rng.randrange(0, len(f.d) + 1))
            c.stat("line-by-line readings")
        elif k == 10:
            r = rng.random()
            if r < 0.6 or not f.d: seek(rng.randrange(0, len(f.d) + 1))
            elif r < 0.8: seek(-rng.randrange(1, len(f.d) + 1))
            elif r < 0.9: op("f.seek(%d)" % -(len(f.d) + 1 + rng.randrange(5)), "threw"); seek(0)
            elif not f.append: seek(len(f.d) + rng.randrange(1, 50))
        elif k == 11:
            if not state["fresh_append"]: op("f.position", f.pos)
        elif k == 12:
            op("f.flush() == f", True)
            op("[f.size, f.stat.size, f.stat.type, f.error]", [len(f.d), len(f.d), "file", False])
        elif k == 13:
            if f.ro: continue
            n = rng.choice([0, 1, len(f.d), len(f.d) + rng.randrange(1, 100), rng.randrange(0, len(f.d) + 1)])
            if rng.random() < 0.1: op("f.resize(-1)", "threw")
            op("f.resize(%d).size" % n, n)
            if n < len(f.d): del f.d[n:]
            else: f.d += bytes(n - len(f.d))
            seek(rng.randrange(0, n + 1))
        elif k == 14:
            if not state["fresh_append"] and rng.random() < 0.5: op("f.position", f.pos)
            op("f.path == %s" % kstr(path), True)
        else:
            if state["open"]:
                code.append("f.close()")
                if rng.random() < 0.3:
                    code.append("f.close()"); state["open"] = False; continue
            r = rng.randrange(5)
            f.append = f.ro = False
            if r == 0: code.append("f = io.open(%s)" % kstr(path))
            elif r == 1: code.append("f = io.file(%s, io.ro)" % kstr(path)); f.ro = True
            elif r == 2: code.append("f = io.append(%s)" % kstr(path)); f.append = True
            elif r == 3: code.append("f = io.file(%s)" % kstr(path))
            else: code.append("f = io.create(%s)" % kstr(path)); f.d.clear()
            f.pos = 0
            state.update(eof=False, fresh_append=f.append, open=True)
    code += ["f.close()", "R.push(io.open(%s, io.ro).read())" % kstr(path)]
    want.append(Buf(bytes(f.d)))
    return "\n".join(code) + "\nreturn R", want, bytes(f.d)

def files(c, b, n):
    rng = c.subrng("files")
    d = vlib.scratch()
    cases, disk = [], {}
    for i in range(n):
        p = os.path.join(d, "c26f%d" % i)
        code, want, data = history(rng, p, rng.choice([5, 15, 40, 60]), c)
        cases.append((code, want)); disk[p] = data
    kmodel.run_cases(c, b, cases, batch=25, prelude=PRE, mods=IMP, label="file history")
    for p, data in disk.items():
        c.stat("files compared with their contents on disk")
        try: got = open(p, "rb").read()
        except OSError as e: got = repr(e).encode()
        if got != data:
            c.violation("file on disk differs: %r expected %r" % (got[:500], data[:500]), {"got": got, "expected": data}, key="disk")
        try: os.remove(p)
        except OSError: pass

def sparse(c, b, n):
    """Files of many gigabytes, nearly all holes: positions and sizes far beyond 32 bits."""
    rng = c.subrng("sparse")
    d = vlib.scratch()
    cases, paths = [], []
    EDGE = [(1 << k) + j for k in (31, 32, 33, 35) for j in (-2, -1, 0, 1, 7)] + [0, 1, 5, 100, 3 * 10 ** 9]
    for i in range(n):
        path = os.path.join(d, "c26s%d" % i)
        paths.append(path)
        data, size, pos = {}, 0, 0
        code, want = ["const R = []", "const f = io.create(%s)" % kstr(path)], []
        for _ in range(rng.choice([5, 15])):
            c.stat("operations at large positions")
            k = rng.randrange(7)
            if k <= 2 or size == 0:
                pos = rng.choice(EDGE) + rng.randrange(3) if rng.random() < 0.8 else rng.randrange(1 << 36)
                code.append(rng.choice(["f.position = %d", "f.seek(%d)"]) % pos)
                code.append("R.push(f.position)"); want.append(pos)
            if k == 3 or k == 0:
                b_ = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 3, 20])))
                code.append("f.write(%s)" % klit(Buf(b_)))
                for j, x in enumerate(b_): data[pos + j] = x
                pos += len(b_); size = max(size, pos)
                code.append("f.flush()\nR.push([f.position, f.size])"); want.append([pos, size])
            elif k == 4 and size:
                back = min(size, rng.choice([1, 2, 5, 20, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) + 3]))
                pos = size - back
                code.append("R.push(f.seek(-%d).position)" % back); want.append(pos)
            elif k == 5:
                m = rng.choice([1, 4, 30])
                got = bytes(data.get(pos + j, 0) for j in range(max(0, min(m, size - pos))))
                code.append("f.position = %d" % pos)
                code.append("R.push(f.read(%d))" % m); want.append(Buf(got))
                pos += len(got)
                code.append("R.push(f.position)"); want.append(pos)
            elif k == 6:
                size = rng.choice(EDGE)
                code.append("R.push(f.resize(%d).size)" % size); want.append(size)
                for x in [x for x in data if x >= size]: del data[x]
                pos = rng.choice(EDGE)
                code.append("f.position = %d" % pos)
        code.append("R.push([f.size, f.stat.size])"); want.append([size, size])
        code.append("f.close()")
        cases.append(("\n".join(code) + "\nreturn R", want))
    kmodel.run_cases(c, b, cases, batch=25, prelude=PRE, mods=IMP, label="large file history")
    for p in paths:
        try: os.remove(p)
        except OSError: pass

def streams(c, b, n):
    """Pipes between two threads: whatever the sizes of the pieces, the reader gets the bytes in order."""
    rng = c.subrng("streams")
    cases = []
    for i in range(n):
        total = rng.choice([0, 1, 100, 5000, 70000, 150000])
        left, steps = total, []
        while left:
            k = min(left, rng.choice([1, 7, 100, 4000, 30000])); steps.append(k); left -= k
            if len(steps) > 60: steps.append(left); left = 0
        m = rng.choice([251, 256, 13])
        reads = [rng.choice([1, 5, 999, 4096, 65536]) for _ in range(5)]
        code = """const p = io.pipe()
fun wr {
    var at = 0
    for const k in [%s] {
        const x = buffer(k)
        var i = 0
        while i < k { x[i] = (at + i) %% %d
 i += 1 }
        p.write.write(x)
        if k == 7 { p.write.flush() }
        at += k
    }
    p.write.close()
}
const t = async wr()
const rs = [%s]
const got = buffer()
var k = 0
loop {
    const before = got.size
    if k & 1 { p.read.read_some(rs[k %% 5], got) } else { p.read.read(rs[k %% 5], got) }
    if got.size == before { break }
    k += 1
}
t.wait()
var bad = void
var i = 0
while i < got.size { if got[i] != i %% %d { bad = i
 break }
 i += 1 }
return [got.size, bad, p.read.eof]""" % (", ".join(map(str, steps)), m, ", ".join(map(str, reads)), m)
        cases.append((code, [total, None, True]))
        c.stat("bytes sent through pipes", total)
    # several threads writing whole lines to one file or pipe: every line arrives once and undivided, in each thread's order
    for i in range(n):
        th, per = rng.choice([2, 3, 6]), rng.choice([10, 60, 150])
        how = rng.choice(["print(id, i, pad)", "write(\"\\(id) \\(i) \" + pad + \"\\n\")", "print(\"\\(id) \\(i)\", pad)"])
        p = vlib.scratch_path(".txt")
        pipe = rng.random() < 0.5
        code = """%s
const pad = "y".repeats(%d)
fun wr(id) { for const i in range(%d) { out.%s } }
const ts = []
for const id in range(%d) { ts.push(async wr(id)) }
%s
const next = []
for const id in range(%d) { next.push(0) }
var bad = void
var n = 0
for const l in inp.read_lines() {
    const w = [l.split(" ")...]
    const id = w.size == 3 ? integer(w[0]) : -1
    if id < 0 || w[2] != pad || next[id] != integer(w[1]) { bad = l
 break }
    next[id] += 1
    n += 1
}
inp.read()
return [n, bad]""" % (
            "const p = io.pipe()\nconst out = p.write\nconst inp = p.read" if pipe else "const out = io.create(%s)" % kstr(p),
            rng.choice([1, 30, 900]), per, how, th,
            "fun closer { for const t in ts { t.wait() }\n out.close() }\nasync closer()" if pipe else "for const t in ts { t.wait() }\nout.close()\nconst inp = io.open(%s, io.ro)" % kstr(p), th)
        cases.append((code, [th * per, None]))
        c.stat("lines printed by competing threads", th * per)
    # file locks: increments under the lock of separate handles are never lost
    for i in range(max(1, n // 4)):
        th, per = rng.choice([2, 4]), rng.choice([20, 50])
        p = vlib.scratch_path(".txt")
        code = """io.create(%s).write("0").close()
fun inc {
    for const i in range(%d) {
        with const f = io.open(%s) {
            with f.lock() {
                const v = integer(f.read_line())
                f.position = 0
                f.write(string(v + 1))
                f.flush()
            }
        }
    }
}
const ts = []
for const id in range(%d) { ts.push(async inc()) }
for const t in ts { t.wait() }
return io.open(%s, io.ro).read_line()""" % (kstr(p), per, kstr(p), th, kstr(p))
        cases.append((code, str(th * per)))
        c.stat("increments under a file lock", th * per)
    kmodel.run_cases(c, b, cases, batch=6, prelude=PRE, mods=IMP, label="streams", timeout=60)

def shared(c, b, n):
    """A buffer being read into or written from while other threads resize it and collect garbage."""
    rng = c.subrng("shared")
    cases = []
    for i in range(n):
        size, grow = rng.choice([10, 700, 5000, 40000]), rng.choice([6000, 50000, 200000])
        if rng.random() < 0.5:
            code = """const p = io.pipe()
const buf = buffer()
fun rd { p.read.%s(%d, buf)
 return true }
const t = async rd()
var k = 0
while buf.size == 0 && k < 2000000 { k += 1 }
buf.resize(%d)
for const i in range(%d) { kos.collect_garbage()
 buffer(%d) }
p.write.write(buffer(%d))
p.write.close()
return t.wait()""" % (rng.choice(["read", "read_some"]), size, grow, rng.randrange(1, 4), grow, size)
        else:
            # more than a pipe holds, so that the writer has to wait in the middle of its buffer
            total = rng.choice([70000, 150000])
            code = """const p = io.pipe()
const buf = buffer(%d)
buf.fill(7)
fun wr { p.write.write(buf)
 p.write.close()
 return true }
const t = async wr()
const got = p.read.read(%d)
buf.resize(%d)
for const i in range(%d) { kos.collect_garbage()
 buffer(%d).fill(9) }
p.read.read(0x7fffffff, got)
t.wait()
for const x in got { if x != 7 { return x } }
return got.size""" % (total, rng.randrange(1, 5000), total * 2 + grow, rng.randrange(1, 4), total)
            cases.append((code, total))
            c.stat("buffers resized during a write"); continue
        cases.append((code, True))
        c.stat("buffers resized during a read")
    # threads growing one buffer to different sizes at the same moment: every byte up to its size is there
    for i in range(max(2, n)):
        th = rng.choice([2, 3])
        small, big, reps = rng.choice([(1, 300, 300), (200, 3000, 300), (5000, 60000, 60), (20000, 200000, 12)])
        code = """const bufs = []
const at = []
for const r in range(%d) { bufs.push(buffer(%s)) }
for const t in range(%d) { at.push(-1) }
fun grow(id, size) {
    defer { at[id] = 1000000 }
    for const r in range(%d) {
        at[id] = r
        for const t in range(%d) { while at[t] < r { } }
        bufs[r].resize(size)
    }
}
const ts = []
for const t in range(%d) { ts.push(async grow(t, t ? %d + t : %d)) }
for const t in ts { t.wait() }
for const x in bufs {
    const y = buffer(x.size).copy_buffer(0, x)
    if y.size != x.size { return y.size }
    x.fill(7)
    for const k in [0, x.size / 2, x.size - 1] { if x[k] != 7 { return k } }
}
return true""" % (reps, rng.choice(["", "50"]), th, reps, th, th, big, small)
        cases.append((code, True))
        c.stat("buffers grown by competing threads", reps)
    kmodel.run_cases(c, b, cases, batch=4, prelude=PRE, mods=IMP, label="shared buffer", timeout=60)

def check(c):
    b = vlib.build("asan")
    files(c, b, c.n(400, 12000))
    sparse(c, b, c.n(150, 3000))
    streams(c, b, c.n(14, 300))
    shared(c, b, c.n(24, 400))

if __name__ == "__main__": vlib.main(check, "C26", rule="histories of operations on a file, each result compared with the bytes the history requires, then the bytes on disk; streams through pipes in random pieces, lines printed by competing threads, counters under file locks, buffers resized by other threads during a transfer; non-trivial: distinct history",
          assumptions=["errors of a full device and other failures of the C library are not injected here"])
