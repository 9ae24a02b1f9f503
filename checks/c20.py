"""C20: threads deliver their results, and mutexes, semaphores, queues and stacks keep their guarantees."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ksched

SYNC = os.path.join(vlib.VERIF, "work", "sync.kos")
MODES = re.findall(r"^tests\.(\w+) =", open(SYNC).read(), re.M)

def check(c):
    b = {cfg: vlib.build(cfg) for cfg in ("sched", "tsanopt", "rel", "asan")}
    rng = c.subrng("sync")
    for mode in MODES:
        def judge(r):
            return None if r.rc == 0 and ("done %s problems 0" % mode) in r.text() else "the workload reports a problem (exit %d)" % r.rc
        jobs = []
        for i in range(c.n(300, 3000)):
            s = rng.randrange(1, 1 << 40)
            steps = rng.choice([1, 3, 8]) if mode != "results" else 1
            jobs.append((s, [b["sched"].kos, SYNC, mode, str(s % 100003), str(rng.choice([2, 3, 4])), str(steps)]))
        ksched.sched_runs(c, jobs, mode + " (controlled schedule)", judge)
        for cfg, n, steps in (("rel", 3, 60), ("tsanopt", 2, 12), ("asan", 2, 20)):
            jobs = [[b[cfg].kos, SYNC, mode, str(rng.randrange(100000)), str(rng.choice([2, 3, 4])), str(steps // 4 if mode in ("results", "waiters") else steps * 10 if mode in ("owner", "closure") else steps)]
                    for i in range(c.n(n, n * 10))]
            ksched.free_runs(c, jobs, "%s (%s)" % (mode, cfg), judge)

if __name__ == "__main__": vlib.main(check, "C20", rule="script workloads which check exclusion, conservation, order and exactly-once delivery themselves; non-trivial: distinct schedule and workload",
          assumptions=["the controlled scheduler preempts at atomic operations and pthread calls and is sequentially consistent; ThreadSanitizer covers the ordering of plain accesses",
                       "loading a module from several threads at once is not claimed"])
