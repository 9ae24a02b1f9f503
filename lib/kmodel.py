"""Values of Kos as seen from Python, their unambiguous text form, and batches of
(code, expected result) cases run by the real interpreter."""
import struct, math
import vlib

MASK = (1 << 64) - 1
IMIN, IMAX = -(1 << 63), (1 << 63) - 1
def wrap(x):
    x &= MASK
    return x - (1 << 64) if x >> 63 else x

class Buf(bytes):
    pass

class Exc:
    """An exception is expected (whatever its value)."""
    def __repr__(self): return "EXC"
EXC = Exc()

class KosError(Exception):
    """Raised by reference models where Kos throws."""

class Fn:
    def __repr__(self): return "FN"
FN = Fn()

class AnyOf:
    """Any of several results is acceptable."""
    def __init__(self, *v): self.v = v

# Text form:  v T F i<dec> f<16 hex of the IEEE bits, or nan> s<chars> b<hex> [a,b] {k:v} fn cl
def ser(v):
    if v is None: return "v"
    if v is True: return "T"
    if v is False: return "F"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        if v != v: return "fnan"
        return "f" + struct.pack(">d", v).hex()
    if isinstance(v, str):
        return "s" + sstr(v) + ";"
    if isinstance(v, (Buf, bytes, bytearray)):
        return "b" + bytes(v).hex() + ";"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(ser(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(sstr(k) + ":" + ser(v[k]) for k in sorted(v)) + "}"
    if isinstance(v, Fn): return "fn"
    raise TypeError(repr(v))

_plain = set(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ "))
def sstr(s):
    return "".join(c if ord(c) in _plain else "<%x>" % ord(c) for c in s)

def klit(v):
    """Kos source of a value; floats through exact literals."""
    if v is None: return "void"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int):
        if v == IMIN: return "(-9223372036854775807-1)"
        return "(%d)" % v if v < 0 else "%d" % v
    if isinstance(v, float):
        return flit(v)
    if isinstance(v, str):
        return kstr(v)
    if isinstance(v, (bytes, bytearray)):
        return "buffer([" + ",".join(str(x) for x in v) + "])"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(klit(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(kstr(k) + ": " + klit(x) for k, x in v.items()) + "}"
    raise TypeError(repr(v))

def flit(x):
    """A float as Kos source, exact, via the bits (no dependence on number parsing)."""
    return "FB(0x%016x)" % struct.unpack(">Q", struct.pack(">d", x))[0]

def kstr(s):
    o = ['"']
    for c in s:
        n = ord(c)
        if c in '"\\' or n < 32 or n > 126:
            o.append("\\x{%x}" % n)
        else:
            o.append(c)
    o.append('"')
    return "".join(o)

PRELUDE = r'''
import base.*
import io
const OUT_ = []
const HD = "0123456789abcdef"
fun HEX(n)
{
    if n < 16 { return HD[n] }
    return HEX(n >>> 4) + HD[n & 15]
}
fun SS(s)
{
    const r = []
    for const c in s {
        if (c >= "a" && c <= "z") || (c >= "A" && c <= "Z") || (c >= "0" && c <= "9") || c == "_" || c == " " {
            r.push(c)
        }
        else {
            r.push("<", HEX(c.code(0)), ">")
        }
    }
    return string(r...)
}
fun HEXB(b)
{
    const r = []
    for const x in b { r.push(HD[x >> 4], HD[x & 15]) }
    return string(r...)
}
fun FB(bits)
{
    const b = buffer()
    b.pack(">u8", bits)
    return b.unpack(">f8")[0]
}
fun FBITS(x)
{
    const b = buffer()
    b.pack(">f8", x)
    return HEXB(b)
}
fun S(v)
{
    switch typeof v {
        case "void"     { return "v" }
        case "boolean"  { return v ? "T" : "F" }
        case "integer"  { return "i" + string(v) }
        case "float"    { return v != v ? "fnan" : "f" + FBITS(v) }
        case "string"   { return "s" + SS(v) + ";" }
        case "buffer"   { return "b" + HEXB(v) + ";" }
        case "array" {
            var r = ["["]
            var first = true
            for const x in v {
                if ! first { r.push(",") }
                first = false
                r.push(S(x))
            }
            r.push("]")
            return string(r...)
        }
        case "function" { return "fn" }
        case "class"    { return "cl" }
        case "object" {
            if typeof v instanceof string { void }
            const ks = [shallow(v)...]
            ks.sort(key = p => p[0])
            var r = ["{"]
            var first = true
            for const k, x in ks {
                if ! first { r.push(",") }
                first = false
                r.push(SS(k), ":", S(x))
            }
            r.push("}")
            return string(r...)
        }
        default { return "?" + typeof v }
    }
}
fun P(i, s) { io.stdout.write(string(i) + " " + s + "\n") }
fun C(i, f)
{
    var res = void
    try { res = S(f()) }
    catch const e { res = "!" }
    P(i, res)
}
fun OPAQUE(x) { return x }
'''
PRELUDE = PRELUDE.replace('            if typeof v instanceof string { void }\n', '')
PRELUDE_LINES = PRELUDE.count("\n")

def script_of(cases, prelude="", start=0):
    parts = [PRELUDE, prelude, "\n"]
    for i, (code, _) in enumerate(cases):
        parts.append("C(%d, fun {\n%s\n})\n" % (start + i, code))
    return "".join(parts)

def expect_str(e):
    if isinstance(e, Exc): return ("!",)
    if isinstance(e, AnyOf):
        r = ()
        for x in e.v: r += expect_str(x)
        return r
    return (ser(e),)

FILTER = None       # set while one check reruns the cases of another under a slower build
MAX_BATCH = None
SLOW = 0

def run_cases(chk, b, cases, batch=120, prelude="", timeout=120, known=None, label="case", env=None, mods=()):
    """cases: list of (kos code returning a value, expected Python value).  Every case must print the
    serialization of its expected value; any crash, sanitizer report or missing line is a violation."""
    pre = "".join("import %s\n" % m for m in mods) + prelude if not mods else prelude
    imports = "".join("import %s\n" % m for m in mods)
    if FILTER: cases = [x for x in cases if FILTER(*x)]
    if MAX_BATCH: batch = min(batch, MAX_BATCH)
    batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    def mk(cs):
        return imports + script_of(cs, prelude)
    def one(cs):
        r = vlib.run_script(b, mk(cs), timeout=SLOW or timeout, env=env, retry_timeout=not SLOW)
        got = {}
        for line in r.text().split("\n"):
            sp = line.split(" ", 1)
            if len(sp) == 2 and sp[0].isdigit():
                got[int(sp[0])] = sp[1]
        bad = []
        ab = r.abnormal()
        for i, (code, e) in enumerate(cs):
            if got.get(i) not in expect_str(e):
                bad.append(i)
        return cs, r, got, ab, bad
    for cs, r, got, ab, bad in vlib.pmap(one, batches):
        if SLOW and r.timed_out:
            chk.stat("batches abandoned because the instrumented run is too slow")
            continue
        for code, e in cs:
            chk.case(code)
        if not ab and not bad and r.rc == 0:
            continue
        reported = False
        if r.timed_out:
            # already tried with three times the limit: no point in waiting for single cases
            i = bad[0] if bad else 0
            chk.violation("%s: does not finish within its time limit; first case without its result:\n%s" % (label, cs[i][0]),
                {"case.kos": mk(cs), "actual.txt": r.out, "stderr.txt": r.err}, key=cs[i][0])
            return
        for i in (bad if ab or r.rc else bad[:12]):
            code, e = cs[i]
            r1 = vlib.run_script(b, mk([cs[i]]), timeout=timeout, env=env)
            g1 = r1.text().rstrip("\n")
            ok = [ "0 " + x for x in expect_str(e) ]
            if g1 in ok and not r1.abnormal() and r1.rc == 0:
                continue
            reported = True
            chk.violation("%s: code\n%s\nexpected %s\ngot      %s\nexit %d %s\nstderr: %s" % (
                label, code, " | ".join(expect_str(e))[:2000], g1[:2000], r1.rc, r1.abnormal() or "", r1.etext()[-3000:]),
                {"case.kos": mk([cs[i]]), "expected.txt": "\n".join(ok), "actual.txt": r1.out, "stderr.txt": r1.err},
                key=code)
            if chk.nviol >= chk.MAX_VIOLATIONS: return
        if not reported:
            if bad or ab or r.rc:
                chk.violation("%s: batch fails as a whole (%s, exit %d, %d results missing or different, first: %s)\nstderr: %s" % (
                    label, ab or "no crash", r.rc, len(bad),
                    ("code\n%s\nexpected %s\ngot %s" % (cs[bad[0]][0], expect_str(cs[bad[0]][1]), got.get(bad[0]))) if bad else "-",
                    r.etext()[-3000:]),
                    {"case.kos": mk(cs), "expected.txt": "\n".join("%d %s" % (i, "|".join(expect_str(e))) for i, (c_, e) in enumerate(cs)),
                     "actual.txt": r.out, "stderr.txt": r.err}, key="batch")
