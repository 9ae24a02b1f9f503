"""C08: variables and closures."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang, kmodel

def many(c):
    """Functions with up to 200 local variables and closures over random subsets of them, at several depths."""
    cases = []
    for i in range(c.n(500, 6000)):
        rng = c.subrng("many", i)
        n = rng.choice((1, 3, 8, 20, 50, 100, 160, 200))
        names = ["v%d" % k for k in range(n)]
        val = {k: rng.randrange(-200, 200) for k in names}
        lines = ["const tr = []"]
        if rng.random() < 0.3:
            # arguments as variables
            na = rng.randrange(1, min(n, 30) + 1)
        else: na = 0
        args = names[:na]
        for k in names[na:]:
            lines.append("var %s = %d" % (k, val[k]))
        funs = []
        for j in range(rng.randrange(1, 6)):
            cap = rng.sample(names, min(n, rng.randrange(1, 12)))
            writes = []
            body = []
            for k in cap:
                if rng.random() < 0.5:
                    d = rng.randrange(1, 9); writes.append((k, d)); body.append("%s += %d" % (k, d))
            ret = rng.sample(cap, min(len(cap), 3))
            depth = rng.randrange(3)
            inner = "\n".join(body) + "\nreturn [%s]" % ", ".join(ret)
            for q in range(depth):
                inner = "const h%d = fun {\n%s\n}\nreturn h%d()" % (q, inner, q)
            lines.append("fun f%d {\n%s\n}" % (j, inner))
            funs.append((writes, ret))
        exp = []
        for _ in range(rng.randrange(3, 25)):
            k = rng.randrange(4)
            if k == 0:
                x = rng.choice(names); v = rng.randrange(-500, 500)
                lines.append("%s = OPAQUE(%d)" % (x, v)); val[x] = v
            elif k == 1:
                x, y = rng.choice(names), rng.choice(names)
                lines.append("%s = %s + 1" % (x, y)); val[x] = val[y] + 1
            elif k == 2:
                x = rng.choice(names)
                lines.append("tr.push(%s)" % x); exp.append(val[x])
            else:
                j = rng.randrange(len(funs))
                lines.append("tr.push(f%d())" % j)
                for k2, d in funs[j][0]: val[k2] += d
                exp.append([val[k2] for k2 in funs[j][1]])
        for at in range(0, n, 20):
            lines.append("tr.push([%s])" % ", ".join(names[at:at + 20]))
            exp.append([val[k] for k in names[at:at + 20]])
        # two activations must not interfere: run the body twice, return both
        init = {k: 0 for k in args}
        src = "const body = fun(%s) {\n%s\nreturn tr\n}\n" % (", ".join(args), "\n".join(lines))
        # the initial values of arguments
        r2 = c.subrng("many", i)
        n_ = r2.choice((1, 3, 8, 20, 50, 100, 160, 200))
        v0 = {k: r2.randrange(-200, 200) for k in names}
        call = "body(%s)" % ", ".join(str(v0[k]) for k in args)
        cases.append((src + "const a = %s\nconst b = %s\nreturn [a, b]" % (call, call), [exp, exp]))
    c.sample(cases[0][0][:600])
    kmodel.run_cases(c, c.b, cases, batch=10)

def counters(c):
    """Closures created in loops through functions: each owns its variables."""
    cases = []
    for i in range(c.n(200, 2000)):
        rng = c.subrng("cnt", i)
        n = rng.randrange(1, 8)
        ops = [rng.randrange(n) for _ in range(rng.randrange(5, 40))]
        st = [k * 10 for k in range(n)]
        exp = []
        for k in ops:
            st[k] += k + 1; exp.append(st[k])
        gc = rng.random() < 0.2
        code = ("const mk = fun(start, step) { var x = start\n const y = step\n return {inc: fun { x += y; return x }, get: () => x} }\n"
                "const cs = []\nfor const k in range(%d) { cs.push(mk(k * 10, k + 1)) }\nconst out = []\nfor const k in %s { out.push(cs[k].inc()) }\n"
                "return [out, [map(o => o.get(), cs)...]]" % (n, ops))
        cases.append((code, [exp, st]))
    kmodel.run_cases(c, c.b, cases, batch=25)

def check(c):
    c.b = vlib.build("asan")
    many(c)
    counters(c)
    klang.explore(c, c.b, "closures", c.n(1600, 30000), size=60, bloated=0.05)
    klang.explore(c, c.b, "data", c.n(900, 15000))

if __name__ == "__main__": vlib.main(check, "C08", rule="functions with 1..200 variables, random subsets captured and modified by nested closures, and random programs dominated by "
          "closures and assignments; non-trivial: distinct program with at least one event",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
