"""The language engine: random programs run by the real interpreter under sanitizers, their event
trace compared with the trace of a reference interpreter."""
import random
import vlib, kmodel, kref, kgen, kprof, kreduce

def expected(prog):
    """(text, ends with uncaught exception) by the reference, or None if outside its bounds."""
    it = kref.Interp()
    try:
        out, t = it.run(prog)
    except (kref.Budget, RecursionError, AssertionError):
        return None
    if any("..." in o for o in out): return None
    return "\n".join(out) + ("\n" if out else ""), t is not None, len(out)

def text(prog, opaque=False):
    return kmodel.PRELUDE + kref.LANG_PRELUDE + kref.source(prog, opaque=opaque)

def judge(b, prog, exp, opaque=False, **kw):
    """Runs one rendering; returns (verdict, Res, source): ok, static, bad."""
    src = text(prog, opaque)
    r = vlib.run_script(b, src, **kw)
    e, throws, _ = exp
    if r.abnormal():
        return "bad", r, src
    if r.text() == e and (r.rc != 0) == throws:
        return "ok", r, src
    if not opaque and rejected(r):
        return "static", r, src       # rejected by the compiler
    return "bad", r, src

def rejected(r):
    """The compiler rejected the program."""
    return r.rc != 0 and not r.out and b"error: " in r.err and b"Exception: " not in r.err

def diff(e, g):
    e = e.split("\n"); g = g.split("\n")
    for i in range(max(len(e), len(g))):
        x = e[i] if i < len(e) else "<end>"; y = g[i] if i < len(g) else "<end>"
        if x != y:
            return "event %d: expected %r, got %r" % (i, x, y)
    return "same events, different ending"

def explore(chk, b, profile, count, size=40, renderings=(False,), tag="", env=None, bloated=0.0, timeout=120):
    prof = kprof.ALL[profile]
    def mk(i):
        seed = "%s/%d/%s%s/%d" % (chk.pid, chk.seed, profile, tag, i)
        rng = random.Random(seed)
        prog = kgen.Gen(rng, prof, size).program()
        if rng.random() < bloated: prog = bloat(prog, rng)
        return prog
    def one(i):
        prog = mk(i)
        exp = expected(prog)
        if exp is None: return i, "skip", None
        for op in renderings:
            v, r, src = judge(b, prog, exp, op, env=env, timeout=timeout)
            if r.timed_out and timeout < 120: v = "skip"; break
            if v == "static":
                # the compiler may reject operations on constants it can see; then the same
                # program with its constants hidden has to run as expected
                v2, r2, src2 = judge(b, prog, exp, True, env=env)
                if v2 == "ok": v = "static-ok"
                else: v, r, src, op = "bad", r2, src2, True
            if v == "bad": return i, "bad", (prog, op)
        if v == "skip": return i, v, None
        return i, v, exp[2]
    shown = 0
    for i, v, x in vlib.pmap(one, range(count)):
        if v == "skip":
            chk.stat("outside_reference_bounds"); continue
        if v != "bad":
            chk.case((profile, tag, i) if x else None, n=len(renderings))
            chk.stat("events_compared", x * len(renderings))
            if v == "static-ok": chk.stat("statically_rejected_and_rechecked")
            if shown == 0 and x > 3:
                shown = 1
                chk.sample(kref.source(mk(i))[:1200])
            continue
        chk.case((profile, tag, i))
        prog, op = x
        rej = rejected(judge(b, prog, expected(prog), op, env=env)[1])
        if chk.nviol < 2:
            def bad(p):
                try:
                    e = expected(p)
                except Exception:
                    return False
                if e is None: return False
                try:
                    vv, r, _ = judge(b, p, e, op, env=env)
                    if rejected(r) and not rej: return False
                except Exception:
                    return False
                return vv == "bad"
            try:
                if bad(prog): prog = prog if rej else kreduce.reduce(prog, bad, 15)
                else:
                    chk.stat("not_reproduced")
                    continue
            except RecursionError:
                pass
        exp = expected(prog)
        vv, r, src = judge(b, prog, exp, op, env=env)
        chk.violation("program (%s rendering) differs from the reference: %s\n%s\nexit %d %s\n%s\n--- program\n%s" % (
            "opaque" if op else "plain", diff(exp[0], r.text()), "expected to end with an exception" if exp[1] else "", r.rc,
            r.abnormal() or "", r.etext()[-2500:], kref.source(prog, opaque=op)),
            {"program.kos": src, "expected.txt": exp[0], "actual.txt": r.out, "stderr.txt": r.err}, key=kref.source(prog))
        if chk.nviol >= chk.MAX_VIOLATIONS: return

def bloat(prog, rng):
    """The same program padded with effect-free statements using many distinct constants, so that
    jump distances and constant indices exceed 8 and 16 bits."""
    spots = [(p, len(x)) for p, x in kreduce.paths(prog) if kreduce.is_slist(x)]
    total = rng.choice((40, 150, 300, 700))
    k = [rng.randrange(200, 100000)]
    def filler():
        k[0] += 1
        return ("raw", rng.choice(("Q(%d);" % k[0], 'Q("u%d");' % k[0], "Q(%d.5);" % k[0], "Q([%d, %d]);" % (k[0], k[0] + 1),
                                   "Q({u%d: 1});" % k[0])))
    for p, n in sorted(rng.sample(spots, min(len(spots), 4)), key=lambda z: z[0], reverse=True):
        cur = prog
        for i in p: cur = cur[i]
        at = rng.randrange(len(cur))
        m = max(1, total // 4)
        new = list(cur[:at]) + [filler() for _ in range(m)] + list(cur[at:])
        prog = kreduce.setp(prog, p, new)
    return prog
