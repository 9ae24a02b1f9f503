"""C30: sockets deliver the bytes sent, in order and once; datagrams keep their boundaries and addresses."""
import sys, os, socket, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, kmodel
from kmodel import EXC, AnyOf, Buf, klit, kstr

IMP = ("net", "kos", "threads", "fs")
PRE = r'''
fun TRY(f) {
    try { return f() } catch const e { return "threw" }
}
# Byte number i of stream s
fun bytes(s, from, to) {
    const b = buffer(to - from)
    var v = (s * 37 + from * 7 + (from >>> 8) * 3) & 255
    for const i in range(to - from) {
        const at = from + i
        b[i] = (s * 37 + at * 7 + (at >>> 8) * 3) & 255
    }
    return b
}
fun wait_sock(s) {
    for const i in range(40) { if s.wait(0.5) { return true } }
    return false
}
fun server(port, six) {
    const s = net.socket(six ? net.AF_INET6 : net.AF_INET)
    s.setsockopt(net.SOL_SOCKET, net.SO_REUSEADDR, true).bind(six ? "::1" : "127.0.0.1", port).listen(20)
    return s
}
fun client(port, six) {
    return net.socket(six ? net.AF_INET6 : net.AF_INET).connect(six ? "::1" : "127.0.0.1", port)
}
# Sends a stream in pieces, as buffers
fun sender(s, id, pieces, how) {
    var at = 0
    for const k in pieces {
        const b = bytes(id, at, at + k)
        if how == 0 { s.send(b) } else { if how == 1 { s.write(b[: k >>> 1], b[k >>> 1 :]) } else { s.send(b, 0) } }
        at += k
    }
    s.shutdown(net.SHUT_WR)
    return at
}
# Receives until the end, checking every byte; sizes of requests cycle
fun receiver(s, id, sizes, how, nonblocking) {
    var at = 0
    var n = 0
    if nonblocking { s.blocking = false }
    loop {
        const k = sizes[n % sizes.size]
        n += 1
        if nonblocking { if ! wait_sock(s) { return "no data at \(at)" } }
        if how == 1 {
            const peek = s.recv(k, void, net.MSG_PEEK)
            if peek.size > k { return "too many peeked" }
            if peek != bytes(id, at, at + peek.size) { return "peeked other bytes at \(at)" }
        }
        const pre = how == 2 ? buffer([1, 2, 3]) : void
        const b = s.recv(k, pre, how == 3 && ! nonblocking ? net.MSG_WAITALL : 0)
        const off = pre ? 3 : 0
        if pre && (b != pre || b[0] != 1 || b[1] != 2 || b[2] != 3) { return "other buffer" }
        const got = b.size - off
        if got > k { return "too many bytes" }
        if got == 0 { return at }
        if b[off:] != bytes(id, at, at + got) { return "other bytes at \(at)" }
        at += got
        if how == 3 && ! nonblocking && got < k && s.recv(1).size { return "too few bytes waiting for all" }
    }
}
fun fds { kos.collect_garbage()
    return [filter(x => x != "." && x != "..", fs.listdir("/proc/self/fd"))...].size }
'''

USED = set()
def port(kind=socket.SOCK_STREAM):
    """A port which nobody uses (any more)."""
    while True:
        s = socket.socket(socket.AF_INET, kind)
        s.bind(("127.0.0.1", 0))
        p = s.getsockname()[1]
        s.close()
        if p not in USED:
            USED.add(p); return p

def pattern(s, a, b): return bytes((s * 37 + i * 7 + (i >> 8) * 3) & 255 for i in range(a, b))

def has6():
    try:
        s = socket.socket(socket.AF_INET6); s.bind(("::1", 0)); s.close(); return True
    except OSError: return False

def pieces(rng):
    return [rng.choice([1, 2, 10, 300, 4096, 5000, 20000]) for _ in range(rng.randrange(0, 8))]

def streams(c, b, n, six):
    rng = c.subrng("streams")
    cases = []
    for i in range(n):
        cl = rng.randrange(1, 5)
        v6 = six and rng.random() < 0.3
        p = port()
        up, down = [pieces(rng) for _ in range(cl)], [pieces(rng) for _ in range(cl)]
        sizes = [rng.choice([1, 7, 100, 4096, 70000]) if rng.random() < 0.8 else 0 for _ in range(3)]
        if 70000 not in sizes and 4096 not in sizes: sizes.append(4096)
        nb, snb, how, show = rng.random() < 0.4, rng.random() < 0.4, rng.randrange(4), rng.randrange(3)
        sizes = [max(1, x) for x in sizes]
        nb = nb or snb
        c.stat("TCP connections", cl); c.stat("bytes sent", sum(map(sum, up)) + sum(map(sum, down)))
        code = """const srv = server(%d, %s)
const ups = %s
const downs = %s
fun one(s, id) {
    if %s { s.blocking = false }
    const r = async receiver(s, 100 + id, %s, %d, %s)
    sender(s, id, downs[id], %d)
    return r.wait()
}
fun accepting {
    const ts = []
    for const i in range(%d) {
        const a = srv.accept()
        const hello = a.socket.recv(1, void, net.MSG_WAITALL)
        if a.address != "%s" { return "address" }
        ts.push([hello[0], async one(a.socket, hello[0])])
    }
    return sort([map(x => [x[0], x[1].wait()], ts)...], x => x[0])
}
const acc = async accepting()
fun talk(id) {
    const s = client(%d, %s)
    s.send(buffer([id]))
    if %s { s.blocking = false }
    const r = async receiver(s, id, %s, %d, %s)
    sender(s, 100 + id, ups[id], %d)
    const x = r.wait()
    s.close()
    return x
}
const cs = []
for const i in range(%d) { cs.push(async talk(i)) }
for const i in range(3) { kos.collect_garbage() }
const res = [map(t => t.wait(), cs)...]
const r2 = acc.wait()
srv.close()
return [res, r2]""" % (p, str(v6).lower(), klit(up), klit(down), str(snb).lower(), klit(sizes), how, str(nb).lower(), show, cl, "::1" if v6 else "127.0.0.1", p, str(v6).lower(),
                       str(snb).lower(), klit(sizes), how, str(nb).lower(), show, cl)
        cases.append((code, [[sum(x) for x in down], [[j, sum(up[j])] for j in range(cl)]]))
    kmodel.run_cases(c, b, cases, batch=4, prelude=PRE, mods=IMP, label="TCP streams", timeout=120)

class Peer(threading.Thread):
    """An independent server: receives until the end, then sends its answer in pieces."""
    def __init__(self, answer, cuts):
        super().__init__(daemon=True)
        self.s = socket.socket(); self.s.bind(("127.0.0.1", 0)); self.s.listen(1); self.s.settimeout(100)
        self.port, self.answer, self.cuts, self.got, self.err = self.s.getsockname()[1], answer, cuts, b"", None
        USED.add(self.port)
        self.start()
    def run(self):
        try:
            s, _ = self.s.accept()
            s.settimeout(100)
            while True:
                x = s.recv(65536)
                if not x: break
                self.got += x
            at = 0
            for k in self.cuts:
                s.sendall(self.answer[at:at + k]); at += k
            s.sendall(self.answer[at:])
            s.close()
        except OSError as e: self.err = repr(e)
        self.s.close()

def peers(c, b, n):
    rng = c.subrng("peers")
    cases, all_ = [], []
    for i in range(n):
        ans = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 500])))
        pr = Peer(ans, [rng.randrange(1, 100) for _ in range(rng.randrange(3))])
        sent, code = b"", ["const s = client(%d, false)" % pr.port]
        for _ in range(rng.randrange(0, 7)):
            parts, lits = [], []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < 0.5:
                    t = "".join(rng.choice(["a", "Z", " ", "\n", "ł", "€", "\U0001f600", "x" * 50, "é" * 3000]) for _ in range(rng.randrange(0, 6)))
                    parts.append(t.encode()); lits.append(kstr(t))
                else:
                    t = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 100]))); parts.append(t); lits.append(klit(Buf(t)))
            sent += b"".join(parts)
            if len(parts) == 1 and rng.random() < 0.6: code.append("s.send(%s%s)" % (lits[0], rng.choice(["", ", 0"])))
            else: code.append("s.write(%s)" % ", ".join(lits))
        code += ["s.shutdown(net.SHUT_WR)", "const a = buffer()", "var k = 0",
                 "loop { const was = a.size\n s.%s(%d, a)\n if a.size == was { break } }" % (rng.choice(["recv", "read"]), rng.choice([1, 3, 100, 4096])), "s.close()",
                 "return [a, TRY(() => s.recv(1)), TRY(() => s.send(\"x\")), TRY(() => s.wait(0)), s.close() == s]"]
        all_.append((pr, sent))
        cases.append(("\n".join(code), [Buf(ans), "threw", "threw", "threw", True]))
    kmodel.run_cases(c, b, cases, batch=10, prelude=PRE, mods=IMP, label="TCP with an independent peer", timeout=100)
    for (pr, sent), (code, _) in zip(all_, cases):
        pr.join(5)
        c.stat("transfers to an independent peer")
        if pr.got != sent:
            c.violation("the peer received other bytes: %r expected %r (%s)" % (pr.got[:300], sent[:300], pr.err), {"code.kos": code}, key="peer")
        try: pr.s.close()
        except OSError: pass

def datagrams(c, b, n, six):
    rng = c.subrng("dgram")
    cases = []
    for i in range(n):
        v6 = six and rng.random() < 0.3
        pa, pb = port(socket.SOCK_DGRAM), port(socket.SOCK_DGRAM)
        addr, fam = ("::1", "net.AF_INET6") if v6 else ("127.0.0.1", "net.AF_INET")
        code = ["const a = net.socket(%s, net.SOCK_DGRAM).bind(\"%s\", %d)" % (fam, addr, pa), "const b = net.socket(%s, net.SOCK_DGRAM).bind(\"%s\", %d)" % (fam, addr, pb), "const R = []"]
        want, queue = [], {"a": [], "b": []}
        for _ in range(rng.randrange(3, 25)):
            w = rng.choice("ab"); o = "ab"[w == "a"]
            k = rng.randrange(4)
            if k <= 1 and len(queue[o]) < 8:
                if rng.random() < 0.5: t = "".join(rng.choice("xyłß€\U0001f600") for _ in range(rng.randrange(1, 40))); d, l = t.encode(), kstr(t)
                else: d = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 100, 1400, 5000]))); l = klit(Buf(d))
                code.append("R.push(%s.sendto(\"%s\", %d, %s%s) == %s)" % (w, addr, pb if w == "a" else pa, l, rng.choice(["", ", 0"]), w)); want.append(True)
                queue[o].append(d)
                c.stat("datagrams")
            elif queue[w]:
                m = rng.choice([1, 3, 50, 6000, 6000, 6000])
                pre = bytes([9] * rng.choice([0, 0, 4]))
                src = pa if w == "b" else pb
                peek = rng.random() < 0.3
                d = queue[w][0]
                if not peek: queue[w].pop(0)
                fl = ", net.MSG_PEEK" if peek else ""
                if rng.random() < 0.5:
                    code.append("R.push(do_from(%s.recvfrom(%d, %s%s)))" % (w, m, klit(Buf(pre)), fl)); want.append([Buf(pre + d[:m]), addr, src])
                else:
                    code.append("R.push(%s.recv(%d, %s%s))" % (w, m, klit(Buf(pre)) if pre else "void", fl)); want.append(Buf(pre + d[:m]))
            else:
                code.append("R.push(%s.wait(0))" % w); want.append(False)
                code.append("%s.blocking = false" % w)
                code.append("R.push([%s.blocking, %s.recv(10).size, %s.recv(10, buffer([7])), %s.recvfrom(5).data.size])" % (w, w, w, w)); want.append([False, 0, Buf(b"\x07"), 0])
                code.append("%s.blocking = true" % w)
                code.append("R.push(%s.blocking)" % w); want.append(True)
        for w in "ab":
            code.append("R.push(%s.wait(%s))" % (w, rng.choice(["0", "0.01", "0.0"]))); want.append(bool(queue[w]))
        code += ["a.close()", "b.close()", "return R"]
        cases.append(("fun do_from(r) { return [r.data, r.address, r.port] }\n" + "\n".join(code), want))
    kmodel.run_cases(c, b, cases, batch=10, prelude=PRE, mods=IMP, label="datagrams", timeout=60)

def addresses(c, b, n):
    """Numeric addresses and ports go through name resolution unchanged."""
    import ipaddress
    rng = c.subrng("addr")
    todo = []
    for i in range(n):
        if rng.random() < 0.3: a = ipaddress.IPv4Address(rng.choice([rng.randrange(1 << 32), 0x7f000001, (1 << 32) - 1, 0x0a000000 + rng.randrange(256)]))
        else: a = ipaddress.IPv6Address(sum((rng.choice([0, 0, 0, 1, rng.randrange(16), rng.randrange(1 << 16), 0xffff, 0x1000]) << 16 * k) for k in range(8)))
        pt = rng.choice([1, 80, 65535, rng.randrange(1, 65536)])
        todo.append((a, pt, str(a) if rng.random() < 0.5 else a.exploded))
        c.stat("addresses resolved")
    code = "".join("R.push(TRY(() => names(%s, %d)))\n" % (kstr(t), pt) for a, pt, t in todo)
    r = vlib.run_script(b, "import base.*\nimport net\n" + PRE.split("# Byte")[0] + """fun names(a, p) { return sort([map(x => "\\(x.address) \\(x.port) \\(x.family == net.AF_INET6 ? 6 : 4)", net.getaddrinfo(a, p))...]) }
const R = []
""" + code + "for const x in R { if typeof x == \"array\" { print(x...) } else { print(x) } }\n")
    lines = r.text().split("\n")
    for (a, pt, t), got in zip(todo, lines + ["(nothing)"] * len(todo)):
        c.case(("addr", str(a), pt))
        f = got.split(" ")
        if r.abnormal() or r.rc: bad = True
        elif got == "threw": bad = a.version == 4
        else:
            bad = len(f) < 3 or len(f) % 3 or any(f[k + 1:k + 3] != [str(pt), str(a.version)] for k in range(0, len(f), 3))
            if not bad:
                try: bad = any(ipaddress.ip_address(f[k]) != a for k in range(0, len(f), 3))
                except ValueError: bad = True
        if bad:
            c.violation("address %s (given as %s) port %d became %s" % (a, t, pt, got), {"output": r.text()[:2000]}, key="address")

def options(c, b, n):
    rng = c.subrng("opt")
    cases = []
    for i in range(n):
        code, want = ["const s = net.socket(net.AF_INET, %s)" % rng.choice(["net.SOCK_STREAM", "net.SOCK_DGRAM"]), "const R = []"], []
        state = {}
        for _ in range(rng.randrange(1, 15)):
            o = rng.choice(["SO_KEEPALIVE", "SO_REUSEADDR", "SO_BROADCAST", "SO_OOBINLINE", "SO_DONTROUTE", "SO_RCVTIMEO", "SO_SNDTIMEO", "SO_RCVBUF", "SO_SNDBUF"])
            if "TIMEO" in o:
                v = rng.choice([0, 1, 10, 2.5, 0.5, 100.5, 3600]); lit, exp = repr(v), float(v)
            elif "BUF" in o:
                v = rng.choice([5000, 8192, 20000]); lit, exp = str(v), 2 * v
            else:
                v = rng.random() < 0.5; lit, exp = str(v).lower(), v
            code.append("R.push(s.setsockopt(net.SOL_SOCKET, net.%s, %s) == s)" % (o, lit)); want.append(True)
            state[o] = exp
            q = rng.choice(sorted(state))
            code.append("R.push(s.getsockopt(net.SOL_SOCKET, net.%s))" % q); want.append(state[q])
            c.stat("options set and read")
        f = rng.choice([64, 128, 1 << 20, -1, 1 << 40, (1 << 63) - 1])
        for call in ("s.recv(1, void, %d)", "s.recvfrom(1, void, %d)", "s.send(\"x\", %d)", "s.sendto(\"127.0.0.1\", 9, \"x\", %d)"):
            code.append("R.push(TRY(() => (%s)))" % (call % (f | (1 << 45) if f > 0 else f))); want.append("threw")
        code += ["s.close()", "return R"]
        cases.append(("\n".join(code), want))
    kmodel.run_cases(c, b, cases, batch=20, prelude=PRE, mods=IMP, label="socket options", timeout=60)

def ends(c, b, n):
    """What must fail does, without other effects; sockets nobody holds are closed."""
    rng = c.subrng("ends")
    cases = []
    for i in range(n):
        p, q, dead = port(), port(), port()
        cases.append(("""const before = fds()
fun body {
    const R = []
    R.push(TRY(fun { client(%d, false)
        return 1 }))
    const srv = server(%d, false)
    R.push(srv.wait(0))
    const s = client(%d, false)
    R.push(wait_sock(srv))
    const a = srv.accept().socket
    R.push(s.wait(0))
    R.push(a.blocking)
    s.setsockopt(net.SOL_SOCKET, net.SO_RCVTIMEO, 0.02)
    R.push(TRY(() => s.recv(10)))
    const keep = buffer([1, 2, 3])
    R.push(TRY(() => s.recv(10, keep)))
    R.push(keep)
    a.send("abc")
    R.push(string(s.recv(3, void, net.MSG_WAITALL)))
    a.close()
    R.push(s.wait(5))
    R.push(s.recv(10).size)
    R.push(s.recv(10).size)
    var failed = false
    for const i in range(200) {
        if TRY(() => s.send("x".repeats(1000))) == "threw" { failed = true; break }
    }
    R.push(failed)
    %s
    for const i in range(%d) { net.socket() }
    return R
}
const r = [body()...]
const after = fds()
return r + [after <= before]""".replace("r + [after <= before]", "[r, after <= before]") % (dead, p, p, rng.choice(["s.close()", "srv.close()", ""]), rng.randrange(50)),
            [["threw", False, True, False, True, "threw", "threw", Buf(b"\1\2\3"), "abc", True, 0, 0, True], True]))
        c.stat("connections ended by either side")
    kmodel.run_cases(c, b, cases, batch=5, prelude=PRE, mods=IMP, label="ends of connections", timeout=60)

def check(c):
    b = vlib.build("asan")
    six = has6()
    streams(c, b, c.n(40, 600), six)
    peers(c, b, c.n(60, 800))
    datagrams(c, b, c.n(150, 3000), six)
    addresses(c, b, c.n(400, 4000))
    options(c, b, c.n(60, 1000))
    ends(c, b, c.n(25, 300))

if __name__ == "__main__": vlib.main(check, "C30", rule="TCP connections over the loopback interface between threads and with an independent peer, in random pieces, blocking and not, peeking and waiting for all, every byte checked by its position; datagram histories with sizes, boundaries, senders; options; ends of connections and descriptors left; non-trivial: distinct history",
          assumptions=["loopback datagrams below the buffer size are not lost", "a port which was free a moment ago is still free"])
