"""C14: garbage collection at any moment leaves every reachable value intact."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, kmodel, klang

GRAPH = os.path.join(vlib.VERIF, "work", "graph.kos")

def graphs(c, b, runs, label):
    def one(a):
        return a, vlib.run([b.kos, GRAPH] + [str(x) for x in a], timeout=300)
    for a, r in vlib.pmap(one, runs, workers=4 if any(x[3] > 1 for x in runs) else vlib.NPROC):
        m = re.search(r"verified (\d+) collections (\d+) freed (\d+) evacuated (\d+) bad (\d+)", r.text())
        ok = m and m.group(5) == "0" and r.rc == 0 and not r.abnormal()
        if m:
            c.case((label,) + tuple(a), n=int(m.group(1)))
            c.stat("explicit collections", int(m.group(2)))
            c.stat("objects moved by explicit collections", int(m.group(4)))
            c.stat("nodes compared with the mirror", int(m.group(1)))
        if not ok:
            c.violation("object graph differs from its mirror after a collection (%s, arguments %r): exit %d %s\n%s\n%s" % (
                label, a, r.rc, r.abnormal() or "", r.text()[-1500:], r.etext()[-3000:]),
                {"graph.kos": open(GRAPH, "rb").read(), "args.txt": " ".join(map(str, a)), "stdout.txt": r.out, "stderr.txt": r.err})

def native(c):
    """Value-returning cases of the other checks, with a collection at every allocation."""
    import c09, c10, c11
    vlib.REMAP["asan"] = "mad"
    c10.big = lambda c: []
    kmodel.MAX_BATCH = 8
    kmodel.SLOW = 40
    kmodel.FILTER = lambda code, e: len(code) < 2500 and len(repr(e)) < 3000
    c.scale = 0.015 if c.tier == "quick" else 0.03
    for m in (c09, c11):
        m.check(c)
    c.scale = 0.01
    c10.check(c)
    c.scale = 1.0
    vlib.REMAP.clear()
    kmodel.MAX_BATCH = kmodel.FILTER = None
    kmodel.SLOW = 0

def check(c):
    asan = vlib.build("asan")
    mad = vlib.build("mad")
    s = c.seed * 1000
    graphs(c, asan, [(s + i, 300 + 100 * (i % 4), 5 + 7 * (i % 5), 1, 1 + i * 3 % 17) for i in range(c.n(24, 300))], "sanitized")
    graphs(c, asan, [(s + 500 + i, 300, 10 + 5 * (i % 3), 2 + i % 4, 3 + i % 7) for i in range(c.n(8, 100))], "threads")
    graphs(c, mad, [(s + 900 + i, 12, 4 + i % 3, 1, 6) for i in range(c.n(8, 80))], "collection at every allocation")
    graphs(c, mad, [(s + 990 + i, 6, 3, 2, 3) for i in range(c.n(2, 20))], "collection at every allocation, threads")
    native(c)
    for p in sorted(klang.kprof.ALL):
        klang.explore(c, mad, p, c.n(10, 150), size=25, tag="mad", timeout=60)

if __name__ == "__main__": vlib.main(check, "C14", rule="object graphs of 14 node kinds compared with an integer mirror after explicit collections (one and several threads), and "
          "array, string, buffer and language cases with a collection at every allocation; non-trivial: distinct graph seed, case or program",
          assumptions=["builds with a collection at every allocation protect freed pages, so a stale reference faults"])
