"""Random Kos programs (as trees of kref) for the language checks."""
import random
from kmodel import IMIN, IMAX

INTS = [0, 1, 2, 3, 5, 7, 10, 31, 32, 63, 64, 100, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1,
        1 << 32, 1 << 52, 1 << 53, 1 << 62, (1 << 62) - 1, IMAX]
FLOATS = [0.0, 0.5, 1.0, 1.5, 2.25, -3.5, 100.75, 1e10, 0.1]
STRS = ["", "a", "b", "ab", "abc", "xyz", "x\u00e9", "\u0394q", "\U0001F600", "0", "long string value here to be split 0123456789"]
PROPS = ["p0", "p1", "p2", "p3"]

class V:
    __slots__ = ("name", "t", "const", "loop", "fun", "info")
    def __init__(self, name, t, const, loop, fun, info=None):
        self.name = name; self.t = t; self.const = const; self.loop = loop; self.fun = fun; self.info = info

class FnInfo:
    def __init__(self): self.params = []; self.rest = False; self.ret = "any"; self.pure = True; self.captures_loop = False; self.isgen = False; self.nyield = 0; self.allused = False

class Ctx:
    """Per-function context."""
    def __init__(self, up=None):
        self.up = up
        self.loop = 0
        self.sw = []
        self.gen = False
        self.ret = True
        self.this = None
        self.breakable = 0
        self.in_defer = 0
        self.imm = False   # literal called at once
        self.fi = None
        self.top = up is None
        self.inctor = False

class Gen:
    DEFAULT = dict(trace=10, decl=6, assign=5, opassign=4, iff=5, whil=2, repeat=1, loop=1, forr=3, switch=2, tryy=3,
                   defer=2, withh=1, throw=1, assertt=1, ret=1, brk=2, do=1, fun=3, genf=1, cls=1, call=3, idxassign=3,
                   multi=1, delete=1, push=2, yieldd=0, gencall=2, const_cond=0.15, wild=0.06, sliceassign=1, term=0.15)
    def __init__(self, rng, profile=None, size=40):
        self.r = rng
        self.p = dict(self.DEFAULT)
        if profile: self.p.update(profile)
        self.nid = 0
        self.ne = 0
        self.budget = size
        self.scopes = [[]]
        self.cx = Ctx()
        self.cx.ret = False
        self.exprdepth = 0

    # -- names, scopes
    def name(self, pre):
        # shadow an outer name now and then
        if self.r.random() < 0.12:
            mine = {v.name for v in self.scopes[-1]}
            outer = [v.name for s in self.scopes[:-1] for v in s if v.name.startswith(pre) and v.name[len(pre):].isdigit() and v.name not in mine
                     and v.t in ("int", "num", "str", "bool")]
            if outer and not getattr(self, "noshadow", False):
                return self.r.choice(outer)
        self.nid += 1
        return "%s%d" % (pre, self.nid)

    def add(self, name, t, const, info=None):
        v = V(name, t, const, self.cx.loop > 0, self.cx, info)
        self.scopes[-1].append(v)
        return v

    def visible(self, pred):
        seen = set()
        out = []
        for s in reversed(self.scopes):
            here = []
            for v in reversed(s):
                if v.name in seen: continue
                here.append(v.name)
                if pred(v) and self.reach(v): out.append(v)
            seen.update(here)
        return out

    def reach(self, v):
        """Variables declared in a loop of an enclosing function are only visible to literals
        that are called on the spot (closures share one variable for all iterations)."""
        c = self.cx
        while c is not v.fun:
            if v.loop and not c.imm: return False
            c = c.up
            if c is None: return True
        return True

    def var(self, t, assign=False):
        c = self.visible(lambda v: v.t == t and (not assign or not v.const))
        return self.r.choice(c) if c else None

    def mark(self, v):
        """Note that the current function assigns an outer variable."""
        c = self.cx
        while c is not None and c is not v.fun:
            if c.fi: c.fi.pure = False
            c = c.up

    # -- expressions
    def lit(self, t):
        r = self.r
        if t == "int":
            v = r.choice(INTS) if r.random() < 0.35 else r.randint(0, 20)
            return ("lit", -v if r.random() < 0.25 else v)
        if t == "num":
            return ("lit", r.choice(FLOATS)) if r.random() < 0.5 else self.lit("int")
        if t == "str": return ("lit", r.choice(STRS))
        if t == "bool": return ("lit", r.random() < 0.5)
        if t == "void": return ("lit", None)
        raise AssertionError(t)

    def expr(self, t, d=3):
        r = self.r
        if t == "any": t = r.choice(["int", "int", "num", "str", "bool", "void", "arr", "obj"])
        if r.random() < self.p["wild"] * (0.5 if d < 3 else 1):
            w = r.choice(["int", "str", "void", "bool", "arr", "num"])
            if w != t: return ("q", self.expr(w, d - 1)) if d > 0 else ("q", self.lit("int"))
        x = self.expr1(t, d)
        if r.random() < self.p.get("E", 0.08):
            self.ne += 1
            x = ("E", self.ne, x)
        elif r.random() < 0.05: x = ("q", x)
        return x

    def expr1(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            if r.random() < 0.65:
                v = self.var(t)
                if v: return ("var", v.name)
            if t in ("int", "num", "str", "bool", "void"): return self.lit(t)
        ch = r.random()
        # common to all types
        if ch < 0.08 and d > 0: return ("cond", self.cond(d - 1), self.expr(t, d - 1), self.expr(t, d - 1))
        if ch < 0.16 and d > 0:
            c = self.purecall(t, d)
            if c: return c
        if ch < 0.20 and d > 0 and t in ("int", "bool", "str"):
            return ("bin", r.choice(["&&", "||"]), self.expr(t, d - 1), self.expr(t, d - 1))
        if ch < 0.24 and d > 1 and t != "void":
            return self.immediate(t, d)
        if t == "int":
            ch = r.random()
            if ch < 0.45:
                op = r.choice(["+", "-", "*", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"])
                a = self.expr("int", d - 1); b = self.expr("int", d - 1)
                if op in "/%":
                    b = ("q", b) if r.random() < 0.3 else ("lit", r.choice([1, 2, 3, 7, -2, -3, 10]))
                return ("bin", op, a, b)
            if ch < 0.55: return ("un", r.choice(["-", "~", "-"]), self.expr("int", d - 1))
            if ch < 0.70:
                return ("idx", self.expr("arr", d - 1), self.small(), r.random() < 0.1)
            if ch < 0.78: return ("prop", self.expr(r.choice(["arr", "str"]), d - 1), "size", False)
            if ch < 0.88:
                o = self.var("obj")
                if o: return ("prop", ("var", o.name), r.choice(PROPS), r.random() < 0.3)
            if ch < 0.93 and self.cx.this: return ("prop", ("this",), r.choice(PROPS), r.random() < 0.5)
            return self.lit("int")
        if t == "num":
            if ch < 0.7: return ("bin", r.choice("+-*"), self.expr("num", d - 1), self.expr("num", d - 1))
            if ch < 0.8: return ("un", "-", self.expr("num", d - 1))
            return self.lit("num")
        if t == "str":
            ch = r.random()
            if ch < 0.35: return ("bin", "+", self.expr("str", d - 1), self.expr("str", d - 1))
            if ch < 0.55: return ("slice", self.expr("str", d - 1), self.small() if r.random() < 0.7 else None, self.small() if r.random() < 0.7 else None)
            if ch < 0.62: return ("un", "typeof", self.expr("any", d - 1))
            if ch < 0.72: return ("idx", self.expr("str", d - 1), self.small(), False)
            if ch < 0.9:
                parts = [r.choice(STRS)]
                for _ in range(r.randint(1, 2)):
                    v = self.expr(r.choice(["int", "str", "bool"]), d - 1)
                    parts.append(("cond", ("bin", "==", ("un", "typeof", ("q", v)), ("lit", "integer")), ("q", self.lit("int")), ("q", self.lit("str"))) if r.random() < 0.2 else ("q", self.lit(r.choice(["int", "str", "bool"]))))
                    if r.random() < 0.6: parts.append(r.choice(STRS))
                return ("interp", parts)
            return self.lit("str")
        if t == "bool":
            ch = r.random()
            if ch < 0.45:
                tt = r.choice(["int", "num", "str", "int", "bool"])
                return ("bin", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.expr(tt, d - 1), self.expr(tt, d - 1))
            if ch < 0.55: return ("bin", r.choice(["==", "!="]), self.expr("any2", d - 1), self.expr("any2", d - 1))
            if ch < 0.68: return ("un", "!", self.expr(r.choice(["bool", "int", "any2"]), d - 1))
            if ch < 0.78: return ("bin", r.choice(["&&", "||"]), self.expr("bool", d - 1), self.expr("bool", d - 1))
            if ch < 0.84: return ("in", ("lit", r.choice(PROPS)), self.expr("obj", d - 1), r.random() < 0.5)
            if ch < 0.90:
                c = self.var("cls")
                if c: return ("inst", self.expr("obj", d - 1), ("var", c.name))
            return self.lit("bool")
        if t == "any2": return self.expr(r.choice(["int", "num", "str", "bool", "void", "arr"]), d)
        if t == "arr":
            ch = r.random()
            if ch < 0.15 and d > 0: return ("slice", self.expr("arr", d - 1), self.small() if r.random() < 0.7 else None, self.small() if r.random() < 0.7 else None)
            if ch < 0.25 and d > 0: return ("map", self.lam(["int"], "int", d - 1), self.expr("arr", d - 1))
            if ch < 0.35:
                g = self.gencall(d)
                if g: return ("arr", [(True, g)])
            n = r.choice([0, 1, 2, 3, 3, 4])
            it = []
            for _ in range(n):
                if r.random() < 0.12 and d > 0: it.append((True, self.expr("arr", d - 1)))
                else: it.append((False, self.expr("int", d - 1)))
            return ("arr", it)
        if t == "obj":
            if r.random() < 0.35:
                c = self.newobj(d)
                if c: return c
            ps = r.sample(PROPS, r.randint(0, 3))
            return ("obj", [(p, self.expr("int", d - 1)) for p in ps])
        return self.lit(t if t in ("int", "num", "str", "bool", "void") else "void")

    def small(self):
        r = self.r
        x = ("lit", r.choice([0, 1, 2, 3, -1, -2, 0, 1, 5, -6]))
        if r.random() < 0.2:
            v = self.var("int")
            if v: x = ("bin", "&", ("var", v.name), ("lit", 3))
        if r.random() < 0.05: x = ("lit", r.choice([0.5, 1.9, 2.0]))
        return x

    def cond(self, d=2):
        r = self.r
        if r.random() < self.p["const_cond"]:
            return r.choice([("lit", True), ("lit", False), ("lit", 0), ("lit", 1), ("lit", None), ("lit", ""), ("lit", "x"),
                             ("bin", "==", ("lit", 1), ("lit", 1)), ("bin", "<", ("lit", 2), ("lit", 1)), ("un", "!", ("lit", 0)), ("un", "!", ("lit", "s")),
                             ("arr", []), ("bin", "&&", ("lit", True), self.expr("bool", 1)), ("bin", "||", ("lit", True), self.expr("bool", 1)),
                             ("bin", "&&", self.expr("bool", 1), ("lit", False)), ("bin", "||", self.expr("bool", 1), ("lit", True)),
                             ("bin", "&&", ("lit", False), self.expr("bool", 1)), ("bin", "||", ("lit", 0), self.expr("bool", 1))])
        if r.random() < 0.5:
            # nested logical conditions
            def nest(k):
                if k == 0 or r.random() < 0.2:
                    x = self.expr("bool", 1) if r.random() < 0.6 else ("bin", r.choice(["==", "<", ">", "!="]), self.expr("int", 1), self.expr("int", 0))
                    if r.random() < 0.35:
                        self.ne += 1
                        x = ("E", self.ne, x)
                    return x
                if r.random() < 0.2: return ("un", "!", nest(k - 1))
                if r.random() < 0.12: return ("cond", nest(k - 1), nest(k - 1), nest(k - 1))
                return ("bin", r.choice(["&&", "||"]), nest(k - 1), nest(k - 1))
            return nest(r.randint(1, 3))
        return self.expr(r.choice(["bool", "bool", "int", "any2"]), d)

    # functions
    def pushfun(self, fi, imm=False):
        c = Ctx(self.cx)
        c.fi = fi
        c.imm = imm
        self.cx = c
        self.scopes.append([])

    def popfun(self):
        self.scopes.pop()
        self.cx = self.cx.up

    def lam(self, pts, ret, d, imm=True):
        fi = FnInfo()
        self.pushfun(fi, imm)
        ps = []
        for t in pts:
            n = self.name("a")
            while any(n == q for q, _ in ps): self.nid += 1; n = "a%d" % self.nid
            self.add(n, t, False)
            ps.append((n, None))
        b = self.expr(ret, max(0, d))
        self.popfun()
        return ("fun", None, ps, None, ("expr", b), False)

    def immediate(self, t, d):
        pts = [self.r.choice(["int", "str", "bool"]) for _ in range(self.r.randint(0, 2))]
        args = [(False, self.expr(p, d - 2)) for p in pts]
        return ("call", self.lam(pts, t, d - 2), args, None)

    def purecall(self, t, d):
        c = self.visible(lambda v: v.t == "fun" and v.info.ret == t and v.info.pure and not v.info.isgen and not getattr(v.info, "rec", False))
        if not c: return None
        return self.callof(self.r.choice(c), d)

    def callof(self, v, d=2):
        r = self.r
        fi = v.info
        np = len(fi.params)
        if np and r.random() < 0.2:
            nm = [(p, self.expr(t, d - 1)) for p, t, dd in fi.params if not dd or r.random() < 0.5]
            r.shuffle(nm)
            if r.random() < 0.05 and nm and fi.allused: nm.pop()
            if nm: return ("call", ("var", v.name), [], nm)
        n = np
        while n > 0 and fi.params[n - 1][2] and r.random() < 0.5: n -= 1
        if r.random() < 0.04 and n and fi.allused: n -= 1
        args = [(False, self.expr(t, d - 1)) for p, t, dd in fi.params[:n]]
        if n == np and (fi.rest or r.random() < 0.05):
            for _ in range(r.randint(0, 3)): args.append((False, self.expr("int", d - 1)))
        if args and r.random() < 0.1:
            i = r.randrange(len(args))
            args[i] = (True, ("arr", [args[i]]))
        elif fi.rest and n == np and r.random() < 0.3: args.append((True, self.expr("arr", d - 1)))
        if r.random() < 0.06 and not any(s for s, _ in args):
            return ("apply", ("var", v.name), self.expr("any2", 0), ("arr", args))
        if len(args) == 1 and not args[0][0] and r.random() < 0.15:
            return ("stream", args[0][1], ("var", v.name))
        return ("call", ("var", v.name), args, None)

    def gencall(self, d):
        c = self.visible(lambda v: v.t == "fun" and v.info.isgen and v.info.pure)
        if not c: return None
        v = self.r.choice(c)
        fi = v.info
        return ("call", ("var", v.name), [(False, self.expr(t, d - 1)) for p, t, dd in fi.params], None)

    def newobj(self, d):
        c = self.var("cls")
        if not c: return None
        n = c.info.nparams
        return ("call", ("var", c.name), [(False, self.expr("int", d - 1)) for _ in range(n)], None)

    # -- statements
    def block(self, n, push=True):
        if push: self.scopes.append([])
        out = []
        for _ in range(n):
            if self.budget <= 0: break
            s = self.stmt()
            if s is None: continue
            out.extend(s)
            if s and s[-1][0] in ("return", "break", "continue", "throw", "rethrow", "fallthrough") and self.r.random() < 0.8: break
        if push: self.scopes.pop()
        return out

    def nb(self): return self.r.randint(1, 4)

    def T(self, x=None, t=None):
        self.ne += 1
        return ("expr", ("E", self.ne, x if x is not None else self.expr(t or self.r.choice(["int", "str", "bool", "num", "any2", "arr", "obj"]))))

    def stmt(self):
        r = self.r
        self.budget -= 1
        ks = ["trace", "decl", "assign", "opassign", "iff", "whil", "repeat", "loop", "forr", "switch", "tryy", "defer", "withh",
              "throw", "assertt", "ret", "brk", "do", "fun", "genf", "cls", "call", "idxassign", "multi", "delete", "push", "yieldd", "gencall", "sliceassign"]
        depth = len(self.scopes)
        w = []
        for k in ks:
            x = self.p[k]
            if depth > 7 and k in ("iff", "whil", "repeat", "loop", "forr", "switch", "tryy", "defer", "withh", "do", "fun", "genf", "cls"): x = 0
            if depth > 4 and k in ("fun", "genf", "cls", "whil", "repeat", "loop", "forr"): x *= 0.3
            w.append(x)
        k = r.choices(ks, w)[0]
        return getattr(self, "s_" + k)()

    def s_trace(self): return [self.T()]

    def s_decl(self):
        t = self.r.choice(["int", "int", "int", "str", "bool", "num", "arr", "arr", "obj"])
        e = self.expr(t)
        n = self.name("v")
        if any(v.name == n for v in self.scopes[-1]): return self.s_trace()
        c = self.r.random() < 0.35
        self.add(n, t, c)
        return [("decl", [n], e, c)]

    def s_multi(self):
        r = self.r
        k = r.randint(2, 3)
        vs = self.visible(lambda v: v.t == "int" and not v.const)
        if len(vs) >= 2 and r.random() < 0.5:
            ts = r.sample(vs, 2)
            for v in ts: self.mark(v)
            tg = [("var", v.name) for v in ts]
            if r.random() < 0.3: tg.insert(r.randint(0, 2), ("_",))
            return [("massign", tg, ("arr", [(False, self.expr("int", 2)) for _ in range(len(tg) + (r.random() < 0.2))])),
                    ("expr", ("q", ("arr", [(False, ("var", v.name)) for v in ts])))]
        ns = []
        e = ("arr", [(False, self.expr("int", 2)) for _ in range(k + (r.random() < 0.2) - (r.random() < 0.05))])
        for i in range(k):
            self.nid += 1
            ns.append("v%d" % self.nid if r.random() < 0.85 else "_")
        if all(n == "_" for n in ns): return self.s_trace()
        for n in ns:
            if n != "_": self.add(n, "int", False)
        # a multiple assignment, none of whose targets is used, is optimized away by design
        return [("decl", ns, e, False), ("expr", ("q", ("arr", [(False, ("var", n)) for n in ns if n != "_"])))]

    def s_assign(self):
        t = self.r.choice(["int", "int", "str", "bool", "arr", "obj", "num"])
        v = self.var(t, True)
        if not v: return self.s_decl()
        e = self.expr(t)
        self.mark(v)
        return [("assign", ("var", v.name), e)]

    def s_opassign(self):
        r = self.r
        v = self.var("int", True)
        if r.random() < 0.15:
            s = self.var("str", True)
            if s:
                self.mark(s)
                return [("if", [(("bin", "<", ("prop", ("var", s.name), "size", False), ("lit", 200)), [("opassign", ("var", s.name), "+", self.expr("str", 2))])])]
        if not v: return self.s_decl()
        op = r.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", ">>>", "/", "%"])
        b = self.expr("int", 2)
        if op in "/%": b = ("q", b) if r.random() < 0.4 else ("lit", r.choice([2, 3, -5]))
        self.mark(v)
        return [("opassign", ("var", v.name), op, b)]

    def s_idxassign(self):
        r = self.r
        if r.random() < 0.5:
            a = self.var("arr")
            if not a: return self.s_decl()
            t = ("idx", ("var", a.name), self.small(), False)
        else:
            a = self.var("obj")
            if self.cx.this and r.random() < 0.5: o = ("this",)
            elif a: o = ("var", a.name)
            else: return self.s_decl()
            t = ("prop", o, r.choice(PROPS), False) if r.random() < 0.7 else ("idx", o, ("lit", r.choice(PROPS)), False)
        if self.cx.fi: self.cx.fi.pure = False
        if r.random() < 0.35: return [("opassign", t, r.choice(["+", "-", "*", "^"]), self.expr("int", 2))]
        return [("assign", t, self.expr("int", 2))]

    def s_sliceassign(self):
        a = self.var("arr")
        if not a: return self.s_decl()
        if self.cx.fi: self.cx.fi.pure = False
        return [("if", [(("bin", "<", ("prop", ("var", a.name), "size", False), ("lit", 40)),
                 [("assign", ("slice", ("var", a.name), self.small() if self.r.random() < 0.8 else None, self.small() if self.r.random() < 0.8 else None), self.expr("arr", 2))])])]

    def s_push(self):
        a = self.var("arr")
        if not a: return self.s_decl()
        if self.cx.fi: self.cx.fi.pure = False
        if self.r.random() < 0.3: return [self.T(("amethod", ("var", a.name), "pop", []))]
        return [("if", [(("bin", "<", ("prop", ("var", a.name), "size", False), ("lit", 40)),
                         [self.T(("amethod", ("var", a.name), "push", [self.expr("int", 2) for _ in range(self.r.randint(1, 3))]))])])]

    def s_delete(self):
        a = self.var("obj")
        if not a: return self.s_decl()
        if self.cx.fi: self.cx.fi.pure = False
        return [("delete", ("var", a.name), self.r.choice(PROPS))]

    def s_iff(self):
        cs = [(self.cond(), self.block(self.nb()))]
        while self.r.random() < 0.25: cs.append((self.cond(), self.block(self.nb())))
        if self.r.random() < 0.5: cs.append((None, self.block(self.nb())))
        return [("if", cs)]

    def loopbody(self, n=None):
        self.cx.loop += 1
        self.cx.breakable += 1
        sw, self.cx.sw = self.cx.sw, []
        self.cx.sw.append("loop")
        b = self.block(n or self.nb())
        if self.r.random() < self.p["term"] and not (b and b[-1][0] in ("return", "break", "continue", "throw", "rethrow")):
            # the body ends in a statement which never completes normally
            ch = [[("continue",)], [("break",)], self.s_throw()]
            if self.cx.ret and self.cx.fi is not None:
                ch.append([("return", None if self.cx.gen or self.cx.inctor else self.expr(self.cx.fi.ret, 2))])
            b = b + self.r.choice(ch)
        self.cx.sw = sw
        self.cx.breakable -= 1
        self.cx.loop -= 1
        return b

    def counter(self):
        self.nid += 1
        n = "w%d" % self.nid
        self.add(n, "ctr", False)
        return n

    def s_whil(self):
        n = self.counter()
        lim = self.r.randint(1, 4)
        c = ("bin", "<", ("var", n), ("lit", lim))
        if self.r.random() < 0.5: c = ("bin", "&&", c, self.cond(1)) if self.r.random() < 0.7 else ("bin", "&&", self.cond(1), c)
        b = self.loopbody()
        return [("decl", [n], ("lit", 0), False), ("while", c, [("opassign", ("var", n), "+", ("lit", 1))] + b)]

    def s_repeat(self):
        n = self.counter()
        c = ("bin", "<", ("var", n), ("lit", self.r.randint(1, 4)))
        b = self.loopbody()
        if self.r.random() < 0.5: c = ("bin", "&&", c, self.cond(1))
        return [("decl", [n], ("lit", 0), False), ("repeat", c, [("opassign", ("var", n), "+", ("lit", 1))] + b)]

    def s_loop(self):
        n = self.counter()
        b = self.loopbody()
        st = ("if", [(("bin", ">", ("var", n), ("lit", self.r.randint(1, 3))), [("break",)])])
        return [("decl", [n], ("lit", 0), False), ("loop", [("opassign", ("var", n), "+", ("lit", 1)), st] + b)]

    def s_forr(self):
        r = self.r
        self.nid += 1
        n = "i%d" % self.nid
        ch = r.random()
        names = [n]
        ts = ["int"]
        if ch < 0.5: e = self.expr("arr", 2)
        elif ch < 0.65: e = self.expr("str", 2); ts = ["str"]; e = ("slice", e, None, ("lit", 5))
        elif ch < 0.8:
            g = self.gencall(2)
            e = g if g else self.expr("arr", 2)
        else:
            names.append("i%d" % (self.nid + 1) if r.random() < 0.8 else "_"); self.nid += 1
            ts.append("int")
            e = ("arr", [(False, ("arr", [(False, self.expr("int", 1)), (False, self.expr("int", 1))])) for _ in range(r.randint(0, 3))])
        self.scopes.append([])
        self.cx.loop += 1
        const = r.random() < 0.7
        for nm, t in zip(names, ts):
            if nm != "_": self.add(nm, t, const)
        self.cx.loop -= 1
        b = self.loopbody()
        self.scopes.pop()
        # array literals are fresh; guard iteration over a variable that the body may change
        if e[0] == "var": e = ("slice", e, None, None)
        return [("for", names, e, b, "const" if const else "var")]

    def s_switch(self):
        r = self.r
        t = r.choice(["int", "str", "int"])
        e = self.expr(t, 2)
        if t == "int" and r.random() < 0.7: e = ("bin", "&", e, ("lit", 3))
        n = r.randint(1, 4)
        df = r.randint(0, n) if r.random() < 0.7 else -1
        secs = []
        used = set()
        total = n + (1 if df >= 0 else 0)
        for i in range(total):
            if i == df: vals = None
            else:
                vals = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    if t == "int": x = ("lit", r.randint(0, 4)) if r.random() < 0.8 else self.expr("int", 1)
                    else: x = ("lit", r.choice(STRS))
                    if x[0] == "lit":
                        if x[1] in used: continue
                        used.add(x[1])
                    vals.append(x)
                if not vals: vals = [self.q_lit(t)]
            self.cx.breakable += 1
            self.cx.sw = self.cx.sw + ["switch" if i < total - 1 else "last"]
            b = self.block(self.nb())
            # break or fallthrough ends the section
            for j, st in enumerate(b):
                if st[0] in ("break", "fallthrough"):
                    b = b[:j + 1]
                    break
            if not b: b = [self.T()]
            if i < total - 1 and r.random() < 0.2 and b[-1][0] not in ("return", "break", "continue", "throw", "fallthrough", "rethrow"): b.append(("fallthrough",))
            self.cx.sw = self.cx.sw[:-1]
            self.cx.breakable -= 1
            secs.append((vals, b))
        return [("switch", e, secs)]

    def q_lit(self, t): return ("q", self.lit(t))

    def s_tryy(self):
        self.nid += 1
        e = "e%d" % self.nid
        b = self.block(self.nb())
        if self.r.random() < 0.5: b = b + self.s_throw()
        self.scopes.append([])
        self.add(e, "exc", True)
        self.ne += 1
        c = [("expr", ("E", self.ne, ("X", e)))] + self.block(self.r.randint(0, 3))
        if self.r.random() < 0.15: c.append(("rethrow_x", e))
        self.scopes.pop()
        c = [s if s[0] != "rethrow_x" else ("throw", ("var", e)) for s in c]
        return [("try", b, e, [s if s[0] != "throw" or s[1] != ("var", e) else ("rethrow", e) for s in c])]

    def s_defer(self):
        self.cx.in_defer += 1
        sw, self.cx.sw = self.cx.sw, []
        br, self.cx.breakable = self.cx.breakable, 0
        lp, self.cx.loop = self.cx.loop, self.cx.loop
        ret, self.cx.ret = self.cx.ret, False
        b = [self.T()] + self.block(self.r.randint(0, 2))
        self.cx.ret = ret
        self.cx.sw = sw
        self.cx.breakable = br
        self.cx.in_defer -= 1
        return [("defer", b)]

    def s_withh(self):
        r = self.r
        objs = []
        for _ in range(r.randint(1, 2)):
            self.ne += 2
            a = ("fun", None, [], None, ("block", [("expr", ("E", self.ne - 1, self.lit("int")))] + ([("throw", self.uval())] if r.random() < 0.1 else [])), False)
            b = ("fun", None, [], None, ("block", [("expr", ("E", self.ne, self.lit("int")))] + ([("throw", self.uval())] if r.random() < 0.1 else [])), False)
            ps = []
            if r.random() < 0.9: ps.append(("acquire", a))
            if r.random() < 0.95: ps.append(("release", b))
            nm = None
            if r.random() < 0.3:
                self.nid += 1
                nm = "h%d" % self.nid
            objs.append((nm, ("obj", ps) if ps else ("q", ("obj", []))))
        return [("with", objs, self.block(self.nb()))]

    def uval(self):
        r = self.r
        return r.choice([("lit", r.randint(0, 99)), ("lit", "u:%d" % r.randint(0, 99)), ("lit", None), ("arr", [(False, ("lit", 1)), (False, self.expr("int", 1))]), ("lit", 1.5), ("lit", True)])

    def s_throw(self):
        t = ("throw", self.uval())
        if self.r.random() < 0.5: return [("if", [(self.cond(1), [t])])]
        return [t]

    def s_assertt(self): return [("assert", ("q", self.cond(1)))]

    def s_ret(self):
        if not self.cx.ret or self.cx.fi is None: return self.s_trace()
        if self.cx.gen or self.cx.inctor: e = None
        else:
            t = self.cx.fi.ret
            e = self.expr(t, 2)
        if self.r.random() < 0.6: return [("if", [(self.cond(1), [("return", e)])])]
        return [("return", e)]

    def s_brk(self):
        r = self.r
        sw = self.cx.sw
        if not sw: return self.s_trace()
        ch = []
        ch.append(("break",))
        if "loop" in sw: ch.append(("continue",))
        if sw[-1] == "switch": ch.append(("fallthrough",))
        s = r.choice(ch)
        if r.random() < 0.7: return [("if", [(self.cond(1), [s])])]
        return [s]

    def s_do(self): return [("do", self.block(self.nb()))]

    def params(self, k=None):
        r = self.r
        ps = []
        types = []
        dflt = False
        for _ in range(r.randint(0, 3) if k is None else k):
            self.nid += 1
            n = "a%d" % self.nid
            t = r.choice(["int", "int", "str", "bool", "arr"])
            if r.random() < 0.3: dflt = True
            ps.append((n, self.expr(t, 1) if dflt else None))
            types.append((n, t, dflt))
        return ps, types

    def s_fun(self):
        r = self.r
        fi = FnInfo()
        rec = r.random() < 0.15
        ps, types = self.params()
        fi.params = types
        rest = None
        if r.random() < 0.2:
            self.nid += 1
            rest = "r%d" % self.nid
            fi.rest = True
        fi.ret = r.choice(["int", "int", "str", "bool", "arr", "obj"])
        self.nid += 1
        name = "f%d" % self.nid
        if rec:
            self.nid += 1
            ps = [("n%d" % self.nid, None)] + ps
            fi.rec = True
        outer_loop = self.cx.loop > 0
        self.pushfun(fi)
        sb = self.budget
        self.budget = min(self.budget, r.randint(3, 10))
        used = self.budget
        for n, t, dd in types: self.add(n, t, False)
        if rest: self.add(rest, "arr", False)
        if rec: self.add(ps[0][0], "ctr", True)
        body = self.block(r.randint(1, 5), push=False)
        if rec:
            fi.pure = False
            body.append(("if", [(("bin", ">", ("var", ps[0][0]), ("lit", 0)),
                        [self.T(("call", ("var", name), [(False, ("bin", "-", ("var", ps[0][0]), ("lit", 1)))] + [(False, self.expr(t, 1)) for n, t, dd in types], None))])]))
        body.append(("return", self.expr(fi.ret, 2)))
        if types and r.random() < 0.7:
            # a function may ignore trailing arguments it does not use; here all are used
            fi.allused = True
            body.insert(0, ("expr", ("q", ("arr", [(False, ("var", n)) for n, t, dd in types]))))
        self.popfun()
        self.budget = sb - used
        out = [("fundecl", ("fun", name, ps, rest, ("block", body), False))]
        self.add(name, "fun" if not rec else "rfun", True, fi)
        if rec: out.append(self.T(("call", ("var", name), [(False, ("lit", r.randint(0, 4)))] + [(False, self.expr(t, 1)) for n, t, dd in types], None)))
        return out

    def s_genf(self):
        r = self.r
        fi = FnInfo()
        fi.isgen = True
        ps, types = self.params(r.randint(0, 2))
        fi.params = types
        self.nid += 1
        name = "g%d" % self.nid
        self.pushfun(fi)
        self.cx.gen = True
        oldy = self.p["yieldd"]
        self.p["yieldd"] = 12
        sb = self.budget
        self.budget = min(self.budget, r.randint(3, 9))
        used = self.budget
        for n, t, dd in types: self.add(n, t, False)
        body = self.block(r.randint(2, 5), push=False)
        body.append(("expr", ("yield", self.expr("int", 2))))
        self.p["yieldd"] = oldy
        self.popfun()
        self.budget = sb - used
        self.add(name, "fun", True, fi)
        return [("fundecl", ("fun", name, ps, None, ("block", body), True))]

    def s_yieldd(self):
        if not self.cx.gen or self.cx.in_defer: return self.s_trace()
        x = ("yield", self.expr("int", 2))
        ch = self.r.random()
        if ch < 0.5: return [("expr", x)]
        if ch < 0.8: return [self.T(x)]
        self.nid += 1
        n = "v%d" % self.nid
        self.add(n, "yv", False)
        return [("decl", [n], x, False), self.T(("var", n))]

    def s_gencall(self):
        g = self.visible(lambda v: v.t == "git")
        r = self.r
        if g and r.random() < 0.7:
            v = r.choice(g)
            if self.cx.fi: self.cx.fi.pure = False
            return [self.T(("call", ("var", v.name), [(False, self.expr("int", 1))] if r.random() < 0.6 else [], None))]
        gs = self.visible(lambda v: v.t == "fun" and v.info.isgen)
        if not gs: return self.s_genf()
        v = r.choice(gs)
        self.nid += 1
        n = "t%d" % self.nid
        e = ("call", ("var", v.name), [(False, self.expr(t, 1)) for p, t, dd in v.info.params], None)
        self.add(n, "git", True)
        return [("decl", [n], e, True)]

    def s_cls(self):
        r = self.r
        base = self.var("cls") if r.random() < 0.5 else None
        self.nid += 1
        name = "K%d" % self.nid
        class CI: pass
        ci = CI()
        ctor = None
        bn = base.info.nparams if base else 0
        ci.methods = dict(base.info.methods) if base else {}
        if r.random() < 0.75:
            fi = FnInfo(); fi.ret = "int"
            k = r.randint(0, 2)
            ps = []
            self.pushfun(fi)
            self.cx.inctor = True
            self.cx.this = True
            for _ in range(k):
                self.nid += 1
                ps.append(("a%d" % self.nid, None)); self.add(ps[-1][0], "int", False)
            body = []
            if base and r.random() < 0.8: body.append(("expr", ("supercall", [self.expr("int", 1) for _ in range(bn)])))
            sb = self.budget; self.budget = min(sb, 3)
            body += [("assign", ("prop", ("this",), r.choice(PROPS), False), self.expr("int", 1)) for _ in range(r.randint(0, 3))]
            body += self.block(r.randint(0, 2), push=False)
            self.budget = sb - 3
            self.popfun()
            ctor = ("fun", None, ps, None, ("block", body), False)
            ci.nparams = k
        else: ci.nparams = bn
        methods = []
        for _ in range(r.randint(0, 2)):
            m = r.choice(["m0", "m1", "m2"])
            if any(m == x for x, _ in methods): continue
            fi = FnInfo(); fi.ret = "int"
            self.pushfun(fi)
            self.cx.this = True
            k = r.randint(0, 1)
            ps = []
            for _ in range(k):
                self.nid += 1
                ps.append(("a%d" % self.nid, None)); self.add(ps[-1][0], "int", False)
            sb = self.budget; self.budget = min(sb, 3)
            body = self.block(r.randint(0, 3), push=False)
            self.budget = sb - 3
            if base and base.info.methods and r.random() < 0.5:
                bm = r.choice(sorted(base.info.methods))
                body.append(self.T(("superprop", bm, [(False, self.expr("int", 1)) for _ in range(base.info.methods[bm])])))
            body.append(("return", self.expr("int", 2)))
            self.popfun()
            methods.append((m, ("fun", m, ps, None, ("block", body), False)))
            ci.methods[m] = k
        fields = []
        for p in r.sample(["p2", "p3", "z0"], r.randint(0, 2)):
            fields.append((p, self.expr("int", 1)))
        self.add(name, "cls", True, ci)
        return [("classdecl", name, ("var", base.name) if base else None, ctor, methods, fields)] + self.usecls(name, ci)

    def usecls(self, name, ci):
        r = self.r
        self.nid += 1
        n = "v%d" % self.nid
        out = [("decl", [n], ("call", ("var", name), [(False, self.expr("int", 1)) for _ in range(ci.nparams)], None), True), self.T(("var", n))]
        self.add(n, "obj", True)
        for m in sorted(ci.methods):
            if r.random() < 0.8: out.append(self.T(("mcall", ("var", n), m, [(False, self.expr("int", 1)) for _ in range(ci.methods[m])])))
        out.append(self.T(("inst", ("var", n), ("var", name))))
        return out

    def s_call(self):
        c = self.visible(lambda v: v.t == "fun" and not v.info.isgen)
        if not c: return self.s_fun()
        v = self.r.choice(c)
        if not v.info.pure and self.cx.fi: self.cx.fi.pure = False
        e = self.callof(v)
        # calls which may change variables are kept alone in their statement
        ch = self.r.random()
        if ch < 0.7: return [self.T(e)]
        t = v.info.ret
        if ch < 0.85:
            w = self.var(t, True)
            if w:
                self.mark(w)
                return [("assign", ("var", w.name), e)]
        self.nid += 1
        n = "v%d" % self.nid
        c = self.r.random() < 0.5
        self.add(n, t, c)
        return [("decl", [n], e, c)]

    def program(self):
        out = []
        while self.budget > 0:
            s = self.stmt()
            if not s: continue
            if s[-1][0] in ("throw", "return", "break", "continue"): continue
            out.extend(s)
        # final state of the visible variables
        for v in self.visible(lambda v: v.t in ("int", "str", "bool", "num", "arr", "obj")):
            out.append(self.T(("var", v.name)))
        return out
