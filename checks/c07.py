"""C07: objects, prototypes, classes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang, kmodel
from kmodel import EXC, kstr

def histories(c):
    """Long histories of property operations on a chain of objects, against dictionaries."""
    cases = []
    for i in range(c.n(700, 10000)):
        rng = c.subrng("hist", i)
        depth = rng.randrange(1, 4)
        nkeys = rng.choice((2, 5, 12, 40, 120, 400))
        kind = rng.randrange(4)
        def key(k):
            if kind == 0: return "k%d" % k
            if kind == 1: return ("\u0105%d" if k % 2 else "x%d") % k
            if kind == 2: return "a" * (k % 7) + str(k)
            return "\U0001f600%d" % k if k % 3 == 0 else "key_%d_long_enough_name" % k
        keys = [key(k) for k in range(nkeys)]
        objs = [{} for _ in range(depth)]
        lines = ["const out = []", "const ks = [%s]" % ", ".join(map(kstr, keys)), "var val = 0"]
        lines.append("class C0 { }\nconst o0 = C0.prototype")
        # o0 <- o1 <- o2 : each the prototype of the next, built from classes
        for d in range(1, depth):
            lines.append("class C%d extends C%d { }\nconst o%d = C%d.prototype" % (d, d - 1, d, d))
        exp = []
        def get(d, k):
            for e in range(d, -1, -1):
                if k in objs[e]: return objs[e][k]
            raise KeyError
        nops = rng.choice((10, 40, 120))
        bias = rng.random()
        for n in range(nops):
            d = rng.randrange(depth)
            k = rng.randrange(nkeys)
            K = keys[k]
            r = rng.random()
            ks = "ks[%d]" % k if rng.random() < 0.5 else kstr(K)
            if r < 0.3 + 0.2 * bias:
                v = rng.randrange(1000)
                lines.append("o%d[%s] = %d" % (d, ks, v)); objs[d][K] = v
            elif r < 0.55 + 0.1 * bias:
                lines.append("delete o%d[%s]" % (d, ks)); objs[d].pop(K, None)
            elif r < 0.7:
                try: e = get(d, K)
                except KeyError: e = "none"
                lines.append("try { out.push(o%d[%s]) } catch const e { out.push(\"none\") }" % (d, ks)); exp.append(e)
            elif r < 0.78:
                lines.append("out.push(%s in o%d)" % (ks, d)); exp.append(K in objs[d])
            elif r < 0.84:
                try: get(d, K); e = True
                except KeyError: e = False
                lines.append("out.push(%s propertyof o%d)" % (ks, d)); exp.append(e)
            elif r < 0.88:
                try: e = get(d, K)
                except KeyError: e = None
                lines.append("out.push(o%d[?%s])" % (d, ks)); exp.append(e)
            elif r < 0.92:
                # bulk insertion
                a = rng.randrange(nkeys); m = rng.randrange(a, nkeys + 1)
                lines.append("for const j in range(%d, %d) { o%d[ks[j]] = j }" % (a, m, d))
                for j in range(a, m): objs[d][keys[j]] = j
            elif r < 0.95:
                a = rng.randrange(nkeys); m = rng.randrange(a, nkeys + 1)
                lines.append("for const j in range(%d, %d) { delete o%d[ks[j]] }" % (a, m, d))
                for j in range(a, m): objs[d].pop(keys[j], None)
            elif r < 0.97 and K in objs[d]:
                lines.append("o%d[%s] += 7" % (d, ks)); objs[d][K] += 7
            elif r < 0.985:
                lines.append("out.push(shallow(o%d) -> list -> (a => do_sort(a)))" % d)
                exp.append([[k2, objs[d][k2]] for k2 in sorted(objs[d])])
            else:
                lines.append("out.push(only([deep(o%d)...], ks))" % d)
                exp.append(sorted({k2 for e in range(d + 1) for k2 in objs[e]}))
        for d in range(depth):
            lines.append("out.push(do_sort([shallow(o%d)...]))" % d)
            exp.append([[k2, objs[d][k2]] for k2 in sorted(objs[d])])
        # reads through an instance
        lines.append("const inst = C%d()" % (depth - 1))
        for K in rng.sample(keys, min(nkeys, 5)):
            try: e = get(depth - 1, K)
            except KeyError: e = "none"
            lines.append("try { out.push(inst[%s]) } catch const e { out.push(\"none\") }" % kstr(K)); exp.append(e)
        cases.append(("\n".join(lines) + "\nreturn out", exp))
    c.sample(cases[0][0][:600])
    kmodel.run_cases(c, c.b, cases, batch=12, prelude="""
fun list(x) { return [x...] }
fun do_sort(a)
{
    const b = [map(p => p, a)...]
    b.sort(key = p => p[0])
    return b
}
fun only(a, ks)
{
    const mine = {}
    for const k in ks { mine[k] = true }
    const r = []
    for const p in do_sort(a) { if p[0] in mine { r.push(p[0]) } }
    return r
}
""")

def check(c):
    c.b = vlib.build("asan")
    histories(c)
    klang.explore(c, c.b, "classes", c.n(2200, 40000), bloated=0.05)

if __name__ == "__main__": vlib.main(check, "C07", rule="histories of up to 120 property operations (set, delete, read, membership, bulk insertion and removal, enumeration) on chains of up to "
          "three objects with 2..400 keys against dictionaries, and random programs dominated by classes; non-trivial: distinct program with at least one event",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
