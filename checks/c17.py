"""C17: a failing allocation or system call surfaces as an error and damages nothing."""
import sys, os, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

WORK = os.path.join(vlib.VERIF, "work", "fault.kos")

def check(c):
    b = vlib.build("fault")
    base = vlib.scratch_path("")
    os.makedirs(base)
    def go(at, ln=1, out=None):
        d = os.path.join(base, "%d_%d" % (at, ln))
        os.makedirs(d, exist_ok=True)
        env = {"VF_AT": str(at), "VF_LEN": str(ln)}
        if out: env["VF_OUT"] = out
        r = vlib.run([b.kos, WORK], env=env, cwd=d, timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        return r
    out = os.path.join(base, "count")
    ref = go(-1, 1, out)
    lines = ref.text().split("\n")
    if ref.rc or ref.abnormal() or lines[-2:] != ["canary true", ""] or any(not l.endswith(" ok") for l in lines[:-2]):
        c.violation("the workload fails without injected faults: exit %d %s\n%s\n%s" % (ref.rc, ref.abnormal() or "", ref.text()[-1500:], ref.etext()[-3000:]), {"work.kos": open(WORK, "rb").read()})
        return
    total = int(open(out).read())
    if total < 1000:
        # the fault points are not reachable in this tree; nothing can be injected
        c.stat("fault points", total); return
    names = [l[:-3] for l in lines[:-2]]
    # number of points passed before the first unit runs
    empty = vlib.scratch_path(".kos")
    text = open(WORK).read()
    with open(empty, "w") as f: f.write(text[:text.index("for const u in units {")])
    vlib.run([b.kos, empty], env={"VF_AT": "-1", "VF_OUT": out}, cwd=base)
    start = min(int(open(out).read()), total)
    c.stat("fault points", total)
    c.stat("fault points before the units", start)
    runs = []
    st1, st2, st3 = c.n(31, 1), c.n(3, 1), c.n(61, 4)
    runs += [(i, 1) for i in range(c.rng.randrange(st1), start, st1)]
    runs += [(i, 1) for i in range(start - 200 + c.rng.randrange(st2), total, st2)]
    runs += [(i, c.rng.choice((2, 3, 10, 50, 300))) for i in range(start + c.rng.randrange(st3), total, st3)]
    runs += [(i, 1000000) for i in range(c.rng.randrange(st3 * 2), total, st3 * 2)]
    hit = {}
    def judge(a):
        at, ln = a
        r = go(at, ln)
        if r.timed_out: return a, r, None if ln > 1 else "does not end", "slow"
        if r.abnormal(): return a, r, "%s (exit %d)" % (r.abnormal(), r.rc), None
        got = r.text().split("\n")
        if got and got[-1] == "": got.pop()
        if r.rc not in (0, 1): return a, r, "exit code %d" % r.rc, None
        # lines in the order of the units, each unit ok, or failed and then (one fault only) ok
        i = 0; exc = None; k = 0
        while i < len(got) and k < len(names):
            l = got[i]; i += 1
            if l == names[k] + " ok": k += 1; continue
            if l == names[k] + " exc":
                # the exception of a thread abandoned by the failure is delivered at a later collection
                if exc and ln == 1 and not exc.startswith("thread"): return a, r, "second failure although only one fault was injected: %s" % l, None
                exc = names[k]
                if i < len(got):
                    l2 = got[i]; i += 1
                    if l2 == names[k] + " again exc" and ln > 1: pass
                    elif l2 != names[k] + " again ok": return a, r, "after a failed attempt: %r" % l2, None
                k += 1; continue
            return a, r, "unexpected result %r" % l, None
        rest = got[i:]
        if rest and rest != ["canary true"]: return a, r, "unexpected output %r" % rest[:3], None
        if r.rc == 0 and not rest: return a, r, "exit code 0 but the workload did not reach its end", None
        return a, r, None, ("exc:" + exc if exc else "ended" if r.rc else "unaffected")
    for a, r, bad, kind in vlib.pmap(judge, runs):
        c.case(a)
        c.stat({"unaffected": "faults without visible effect", "ended": "runs ended by an error report", None: "bad", "slow": "runs too slow"}.get(kind, "faults caught as exceptions and retried successfully"))
        if kind and kind.startswith("exc:"): hit[kind[4:]] = hit.get(kind[4:], 0) + 1
        if bad:
            c.violation("fault injected at point %d (%d points): %s\nlast output: %s\nstderr: %s" % (a[0], a[1], bad, r.text()[-300:], r.etext()[-3500:]),
                        {"work.kos": open(WORK, "rb").read(), "env.txt": "VF_AT=%d VF_LEN=%d" % a, "stdout.txt": r.out, "stderr.txt": r.err})
            if c.nviol >= c.MAX_VIOLATIONS: break
    c.extra["faults per unit that ended in an exception"] = hit
    shutil.rmtree(base, ignore_errors=True)

if __name__ == "__main__": vlib.main(check, "C17", rule="a workload of about 40 units rerun with each (sampled) allocation or system-call point failing once, in a burst, or for ever; oracle: no crash, leak or sanitizer report, "
          "results right or an exception, the failed unit succeeds when repeated; non-trivial: distinct fault position and length",
          assumptions=["the repository's own fault points stand for failing allocations and calls"])
