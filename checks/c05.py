"""C05: argument binding and evaluation order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang, kmodel
from kmodel import EXC

def many(c):
    """Functions with up to about a hundred parameters called in every way."""
    rng = c.rng
    cases = []
    sizes = [0, 1, 2, 3, 5, 8, 16, 29, 30, 31, 32, 33, 34, 36, 40, 48, 64, 80, 100]
    for _ in range(c.n(2500, 30000)):
        nd = rng.choice(sizes) if rng.random() < 0.7 else rng.randrange(0, 45)
        d = rng.choice((0, 0, 1, 2, 3, 5, 10, 33)) if rng.random() < 0.8 else rng.randrange(0, 40)
        if nd + d > 110: continue
        rest = rng.random() < 0.35
        total = nd + d
        names = ["p%d" % i for i in range(total)]
        params = [n if i < nd else "%s = %d" % (n, 1000 + i) for i, n in enumerate(names)]
        if rest: params.append("r...")
        closure = rng.random() < 0.25          # some parameters captured by a closure
        modify = rng.random() < 0.2 and total  # one parameter assigned to
        use = names + (["r"] if rest else [])
        mi = rng.randrange(total) if modify else -1
        body = ""
        if modify: body += "  %s += 5000\n" % names[mi]
        if closure:
            body += "  const g = () => [%s]\n  return g()\n" % ", ".join(use)
        else:
            body += "  return [%s]\n" % ", ".join(use)
        style = rng.randrange(8)
        order = ""
        k = min(rng.choice((nd, nd, total, total, total + rng.randrange(4), nd + rng.randrange(d + 1) if d else nd,
                        max(0, nd - 1), rng.randrange(total + 3))), 120)
        vals = list(range(1, k + 1))
        fn = "fun f(%s) {\n%s}\n" % (", ".join(params), body)
        def result(vals):
            if len(vals) < nd: return EXC
            r = [vals[i] if i < len(vals) else 1000 + i for i in range(total)]
            if modify: r[mi] += 5000
            if rest: r.append(vals[total:])
            return r
        e = result(vals)
        if style == 0:
            code = fn + "return f(%s)" % ", ".join(map(str, vals))
        elif style == 1:
            code = fn + "return f([%s]...)" % ", ".join(map(str, vals))
        elif style == 2:
            at = rng.randrange(k + 1)
            code = fn + "return f(%s)" % ", ".join([str(v) for v in vals[:at]] + ["[%s]..." % ", ".join(map(str, vals[at:]))])
        elif style == 3:
            code = fn + "return f.apply(void, [%s])" % ", ".join(map(str, vals))
        elif style == 4:
            # as a method
            code = "const o = {m: %s}\nreturn o.m(%s)" % ("fun(%s) {\n%s}" % (", ".join(params), body), ", ".join(map(str, vals)))
        elif style == 5 and total:
            # named, in random order, all required and some optional ones
            pick = [i for i in range(total) if i < nd or rng.random() < 0.5]
            rng.shuffle(pick)
            miss = rng.random() < 0.1 and nd
            if miss: pick = [i for i in pick if i != rng.randrange(nd)]
            if not pick: continue
            v = {i: 1 + n for n, i in enumerate(pick)}
            if any(i not in v for i in range(nd)): e = EXC
            else:
                e = [v.get(i, 1000 + i) for i in range(total)]
                if modify: e[mi] += 5000
                if rest: e.append([])
            order = ", ".join("%s = T(%d)" % (names[i], v[i]) for i in pick)
            code = "const tr = []\nconst T = x => do_(tr, x)\n" + fn + "const res = f(%s)\nreturn [res, tr]" % order
            if e is not EXC: e = [e, list(range(1, len(pick) + 1))]
        elif style == 6:
            # operands evaluated once, in order
            code = "const tr = []\nconst T = x => do_(tr, x)\n" + fn + "const res = f(%s)\nreturn [res, tr]" % ", ".join("T(%d)" % v for v in vals)
            if e is not EXC: e = [e, vals]
        else:
            # constructor
            code = "class K {\nconstructor(%s) {\n%s}\n}\nreturn K(%s).r_" % (
                ", ".join(params), body.replace("return", "this.r_ ="), ", ".join(map(str, vals)))
        cases.append((code, e))
    # deep: mutual calls with different register counts
    for n in (1, 5, 20, 60, 120):
        vs = ["v%d" % i for i in range(n)]
        code = "".join("var %s = %d\n" % (v, i * 3) for i, v in enumerate(vs))
        code += "fun g(a, b...) { return a + b.size }\n"
        code += "var t = 0\n" + "".join("t += g(%s)\n" % ", ".join(vs[max(0, i - 5):i + 1]) for i in range(n))
        exp = sum(3 * max(0, i - 5) + (i - max(0, i - 5)) for i in range(n))
        cases.append((code + "".join("t += %s\n" % v for v in vs) + "return t", exp + sum(i * 3 for i in range(n))))
    for code, e in cases[:2]: c.sample(code[:600])
    kmodel.run_cases(c, c.b, cases, batch=40, prelude="fun do_(tr, x) { tr.push(x); return x }\n")

def check(c):
    c.b = vlib.build("asan")
    many(c)
    klang.explore(c, c.b, "calls", c.n(2500, 40000), bloated=0.05)

if __name__ == "__main__": vlib.main(check, "C05", rule="functions with 0..110 parameters (required, default, rest; captured or modified) called positionally, with spread, apply, "
          "named arguments, as methods and constructors, and random programs dominated by calls; non-trivial: distinct program with at least one event",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
