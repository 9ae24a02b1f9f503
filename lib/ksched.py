"""Runs concurrent workloads: under the controlled scheduler (one interleaving per seed), under ThreadSanitizer and free-running."""
import os, re
import vlib

def stats(c, path):
    """Adds up what the scheduler reported; returns the set of distinct interleavings."""
    seen = set()
    try:
        for ln in open(path):
            f = ln.split()
            if len(f) == 6:
                seen.add(f[5])
                c.stat("scheduling points", int(f[1]))
                c.stat("thread switches forced", int(f[2]))
                c.stat("long preemptions injected", int(f[3]))
        os.unlink(path)
    except OSError:
        pass
    return seen

MAX_BAD = 6         # failing runs after which the rest of a check is skipped

def sched_runs(c, jobs, label, judge, timeout=40):
    """jobs: list of (seed, command).  judge(res) returns None or what is wrong."""
    out = vlib.scratch_path(".txt")
    bad = [c.nviol]
    def one(j):
        seed, cmd = j
        if bad[0] >= MAX_BAD:
            return j, None, None
        r = vlib.run(cmd, timeout=timeout, env={"VS_SEED": str(seed), "VS_OUT": out})
        what = judge(r) or r.abnormal()
        if what:
            bad[0] += 1
        return j, r, what
    for (seed, cmd), r, what in vlib.pmap(one, jobs):
        if r is None:
            continue
        c.case((label, seed, tuple(cmd[1:])))
        c.stat("controlled runs: " + label)
        if what:
            c.violation("%s, interleaving %d: %s\n%s\n%s" % (label, seed, what, r.text()[-3000:], r.etext()[-2000:]),
                        {"cmd.txt": "VS_SEED=%d %s" % (seed, " ".join(cmd)), "stdout.txt": r.out, "stderr.txt": r.err})
    n = len(stats(c, out))
    c.stat("distinct interleavings", n)

def free_runs(c, jobs, label, judge, workers=2, timeout=60):
    bad = [c.nviol]
    def one(cmd):
        if bad[0] >= MAX_BAD:
            return cmd, None, None
        r = vlib.run(cmd, timeout=timeout)
        what = judge(r) or r.abnormal()
        if what:
            bad[0] += 1
        return cmd, r, what
    for cmd, r, what in vlib.pmap(one, jobs, workers=workers):
        if r is None:
            continue
        c.case((label, tuple(cmd[1:])))
        c.stat("free runs: " + label)
        if what:
            c.violation("%s: %s\n%s\n%s" % (label, what, r.text()[-3000:], r.etext()[-4000:]),
                        {"cmd.txt": " ".join(cmd), "stdout.txt": r.out, "stderr.txt": r.err})

SUMMARY = re.compile(r"rounds (\d+) operations (\d+) histories (\d+) overlaps (\d+) collections (\d+) bad 0")

def conc_judge(c):
    def judge(r):
        m = SUMMARY.search(r.text())
        if not m:
            return "the workload failed (exit %d)" % r.rc
        c.stat("operations", int(m.group(2)))
        c.stat("histories checked for linearizability", int(m.group(3)))
        c.stat("pairs of overlapping operations", int(m.group(4)))
        c.stat("collections", int(m.group(5)))
        return None if r.rc == 0 else "exit %d" % r.rc
    return judge

def conc(c, modes):
    """The native workloads of native/conc.c on a shared object, array or buffer."""
    src = [os.path.join(vlib.VERIF, "native", "conc.c")]
    exe = {cfg: vlib.build_native("conc", src, cfg) for cfg in ("sched", "tsanopt", "rel", "asan")}
    judge = conc_judge(c)
    rng = c.subrng("conc")
    for mode in modes:
        jobs = []
        for i in range(c.n(1200, 12000)):
            nt = rng.choice([2, 2, 3, 3, 4, 6])
            ops = rng.choice([8, 20, 40]) if nt <= 4 else 16
            keys = rng.choice([1, 2, 4, 8])
            ops = min(ops, 60 * keys // nt)
            gc = rng.choice([0, 0, 20, 100])
            s = rng.randrange(1, 1 << 40)
            jobs.append((s, [exe["sched"], mode, str(s % 1000003), "10", str(nt), str(ops), str(keys), str(gc)]))
        sched_runs(c, jobs, mode + " (controlled schedule)", judge)
        for cfg, n, rounds in (("rel", 4, 4000), ("tsanopt", 4, 400), ("asan", 4, 500)):
            jobs = []
            for i in range(c.n(n, n * 10)):
                nt = rng.choice([2, 3, 4])
                keys = rng.choice([1, 2, 4, 8])
                jobs.append([exe[cfg], mode, str(rng.randrange(1 << 30)), str(rounds), str(nt), str(min(40, 60 * keys // nt)), str(keys), str(rng.choice([0, 40, 200]))])
            free_runs(c, jobs, "%s (%s)" % (mode, cfg), judge)
