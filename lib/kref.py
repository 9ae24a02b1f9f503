"""A reference interpreter for (a subset of) Kos over Python syntax trees, and a printer of the
same trees as Kos source.  It is written from the language documentation; it shares nothing with
the C implementation.  Every evaluation function is a Python generator, so that Kos generators
are Python generators."""
import itertools
import sys
from kmodel import KosError, ser, kstr, klit, IMIN, IMAX
import kops
from kops import truthy

sys.setrecursionlimit(60000)

class Arr:
    __slots__ = ("l",)
    def __init__(self, l): self.l = l
class Obj:
    __slots__ = ("p", "proto")
    def __init__(self, proto=None): self.p = {}; self.proto = proto
class Fun:
    __slots__ = ("node", "env", "defaults", "isgen", "cls", "name", "made")
class Gen:
    __slots__ = ("it", "state", "primed")
class Cls:
    __slots__ = ("ctor", "proto", "base", "env", "name")
class Builtin:
    __slots__ = ("f", "name")
    def __init__(self, f, name): self.f = f; self.name = name

class Throw(Exception):
    def __init__(self, value): self.value = value
class RT:
    """Opaque value of a run-time error."""
RTV = RT()
GEND = RT()   # value thrown by an exhausted generator
class Brk(Exception): pass
class Cont(Exception): pass
class Fall(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class Budget(Exception): pass
class GenEnd(Exception): pass

CLOCK = itertools.count()

class Vars(dict):
    """Variables of one scope and when each was declared."""
    __slots__ = ("born",)
    def __setitem__(self, k, v):
        if k not in self: self.born[k] = next(CLOCK)
        dict.__setitem__(self, k, v)

class Env:
    __slots__ = ("v", "up", "this", "cls", "fun", "limit")
    def __init__(self, up, this=None, cls=None):
        self.v = Vars()
        self.v.born = {}
        self.limit = None       # when the closure, whose frame this is, was created
        self.up = up
        self.this = this if up is None or this is not None else up.this
        self.cls = cls if cls is not None else (up.cls if up else None)
    def lookup(self, n):
        e = self
        limit = None
        late = None
        while e is not None:
            if n in e.v:
                if limit is None or e.v.born.get(n, -1) <= limit:
                    # a name redeclared after the closure which uses it was written
                    if late is not None: raise Budget()
                    return e
                if late is None: late = e
            if e.limit is not None and (limit is None or e.limit < limit): limit = e.limit
            e = e.up
        if late is not None: return late
        raise AssertionError("reference: unbound " + n)

NOTHIS = object()

def rt():
    return Throw(RTV)

def typename(v):
    if v is None: return "void"
    if isinstance(v, bool): return "boolean"
    if isinstance(v, int): return "integer"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "string"
    if isinstance(v, Arr): return "array"
    if isinstance(v, Obj): return "object"
    if isinstance(v, (Fun, Gen, Builtin)): return "function"
    if isinstance(v, Cls): return "class"
    raise AssertionError(repr(v))

def rser(v, depth=0):
    if depth > 20: return "..."
    if isinstance(v, Arr): return "[" + ",".join(rser(x, depth + 1) for x in v.l) + "]"
    if isinstance(v, Obj):
        from kmodel import sstr
        return "{" + ",".join(sstr(k) + ":" + rser(v.p[k], depth + 1) for k in sorted(v.p)) + "}"
    if isinstance(v, (Fun, Gen, Builtin)): return "fn"
    if isinstance(v, Cls): return "cl"
    if v is RTV: return "srt;"
    if v is GEND: return "send;"
    return ser(v)

def cmp(a, b):
    """-1, 0, 1 or None (unordered)."""
    if kops.is_num(a) and kops.is_num(b):
        if isinstance(a, float) or isinstance(b, float):
            a = float(a); b = float(b)
            if a != a or b != b: return None
        return -1 if a < b else 1 if a > b else 0
    ta, tb = typename(a), typename(b)
    if ta != tb:
        o = lambda t: kops.ORDER.get(t, 0)
        return -1 if o(ta) < o(tb) else 1
    if ta == "void": return 0
    if ta in ("boolean", "string"):
        return -1 if a < b else 1 if a > b else 0
    if ta == "array":
        if a is b: return 0
        for x, y in zip(a.l, b.l):
            c = cmp(x, y)
            if c is None or c: return c
        return -1 if len(a.l) < len(b.l) else 1 if len(a.l) > len(b.l) else 0
    if a is b: return 0
    return 7   # different identities: only equality is meaningful

def getprop(o, name):
    """Property read; raises Throw."""
    if isinstance(o, Obj):
        p = o
        while p is not None:
            if name in p.p: return p.p[name]
            p = p.proto
        raise rt()
    if name == "size" and isinstance(o, Arr): return len(o.l)
    if name == "size" and isinstance(o, str): return len(o)
    raise rt()

def haspr(o, name, deep):
    if not isinstance(o, Obj): return False
    p = o
    while p is not None:
        if name in p.p: return True
        if not deep: return False
        p = p.proto
    return False

def mentions(n, name):
    if isinstance(n, (list, tuple)):
        if len(n) == 2 and n[0] == "var" and n[1] == name: return True
        return any(mentions(x, name) for x in n)
    return n == name

def has_super(n):
    """Whether the constructor invokes the base constructor explicitly."""
    if isinstance(n, (list, tuple)):
        if n and n[0] == "supercall": return True
        if n and n[0] == "classdecl": return False
        return any(has_super(x) for x in n)
    return False

class Interp:
    def __init__(self, budget=60000):
        self.out = []
        self.steps = budget
        self.depth = 0

    def trace(self, k, v):
        self.out.append("E %d %s" % (k, rser(v)))
        if len(self.out) > 3000 or len(self.out[-1]) > 4000: raise Budget()

    def tick(self):
        self.steps -= 1
        if self.steps < 0: raise Budget()

    # -- calls -----------------------------------------------------------------------------
    def bind(self, fn, args, named):
        node = fn.node
        params = node[2]; rest = node[3]
        vals = {}
        names = [p[0] for p in params]
        if named is not None:
            if not names: raise rt()
            for n in named:
                if n not in names: raise rt()
            for i, n in enumerate(names):
                if n in named: vals[n] = named[n]
                elif params[i][1] is not None: vals[n] = fn.defaults[n]
                else: raise rt()
            if rest: vals[rest] = Arr([])
            return vals
        for i, n in enumerate(names):
            if i < len(args): vals[n] = args[i]
            elif params[i][1] is not None: vals[n] = fn.defaults[n]
            elif not mentions(node[4], n): raise Budget()   # an unused parameter need not be passed
            else: raise rt()
        if rest: vals[rest] = Arr(list(args[len(names):]))
        return vals

    def call(self, f, this, args, named=None):
        self.tick()
        if isinstance(f, Builtin):
            if named is not None: raise rt()
            return (yield from f.f(self, this, args))
        if isinstance(f, Gen):
            return (yield from self.resume(f, args[0] if args else None))
        if isinstance(f, Cls):
            return (yield from self.construct(f, args, named))
        if not isinstance(f, Fun):
            raise rt()
        vals = self.bind(f, args, named)
        env = Env(f.env)
        env.limit = f.made
        env.this = this
        env.cls = f.cls
        env.v.update(vals)
        if f.isgen:
            g = Gen()
            g.state = "ready"
            g.primed = False
            g.it = self.genbody(f, env)
            return g
        return (yield from self.runbody(f, env))

    def runbody(self, f, env):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Budget()
        try:
            try:
                body = f.node[4]
                if body[0] == "expr":
                    return (yield from self.ev(body[1], env))
                yield from self.block(body[1], env, new=False)
                return None
            except Ret as r:
                return r.v
        finally:
            self.depth -= 1

    def genbody(self, f, env):
        try:
            yield from self.block(f.node[4][1], env, new=False)
        except Ret:
            pass

    def resume(self, g, val):
        if g.state == "done": raise Throw(GEND)
        if g.state == "running": raise rt()
        prev = g.state
        g.state = "running"
        try:
            y = g.it.send(val if g.primed else None)
        except StopIteration:
            g.state = "done"
            raise Throw(GEND)
        except BaseException:
            g.state = "done"
            raise
        g.primed = True
        g.state = "active"
        return y
        yield

    def construct(self, c, args, named=None):
        o = Obj(c.proto)
        yield from self.initobj(c, o, args, named)
        return o

    def initobj(self, c, o, args, named=None):
        if c.ctor is None:
            if c.base is not None:
                yield from self.initobj(c.base, o, args, named)
            return
        vals = self.bind(c.ctor, args, named)
        env = Env(c.ctor.env)
        env.limit = c.ctor.made
        env.this = o
        env.cls = c
        env.v.update(vals)
        if c.base is not None and not has_super(c.ctor.node[4]):
            cc = c.base
            while cc is not None and cc.ctor is None: cc = cc.base
            if cc is not None and any(p[1] is None for p in cc.ctor.node[2]):
                raise Budget()      # required parameters which have no effect need not be passed
            yield from self.initobj(c.base, o, [])
        yield from self.runbody(c.ctor, env)

    # -- iteration ---------------------------------------------------------------------------
    def iterate(self, v):
        """Returns next(): a generator function giving (True, value) or (False, None)."""
        if isinstance(v, Arr):
            st = [0]
            def nxt():
                if st[0] < len(v.l):
                    st[0] += 1
                    return (True, v.l[st[0] - 1])
                return (False, None)
                yield
            return nxt
        if isinstance(v, str):
            it = iter(v)
            def nxt():
                for c in it: return (True, c)
                return (False, None)
                yield
            return nxt
        if isinstance(v, Gen):
            def nxt():
                if v.state == "done": return (False, None)
                try:
                    x = yield from self.resume(v, None)
                except Throw as t:
                    if t.value is GEND: return (False, None)
                    raise
                return (True, x)
            return nxt
        raise Budget()   # other values iterate in their own ways, modelled elsewhere

    def items(self, v):
        r = []
        nxt = self.iterate(v)
        while True:
            ok, x = yield from nxt()
            self.tick()
            if not ok: return r
            r.append(x)

    # -- expressions -----------------------------------------------------------------------
    def ev(self, n, env):
        self.tick()
        k = n[0]
        if k == "lit": return n[1]
        if k == "var": return env.lookup(n[1]).v[n[1]]
        if k == "q": return (yield from self.ev(n[1], env))
        if k == "E":
            v = yield from self.ev(n[2], env)
            self.trace(n[1], v)
            return v
        if k == "bin":
            op = n[1]
            a = yield from self.ev(n[2], env)
            if op == "&&":
                return (yield from self.ev(n[3], env)) if truthy(a) else a
            if op == "||":
                return a if truthy(a) else (yield from self.ev(n[3], env))
            b = yield from self.ev(n[3], env)
            return self.binop(op, a, b)
        if k == "un":
            a = yield from self.ev(n[2], env)
            if n[1] == "typeof": return typename(a)
            try: return kops.unary(n[1], a)
            except KosError: raise rt()
        if k == "cond":
            c = yield from self.ev(n[1], env)
            return (yield from self.ev(n[2] if truthy(c) else n[3], env))
        if k == "arr":
            r = []
            for sp, x in n[1]:
                v = yield from self.ev(x, env)
                if sp:
                    r.extend((yield from self.items(v)))
                else: r.append(v)
            return Arr(r)
        if k == "obj":
            o = Obj()
            for name, x in n[1]:
                o.p[name] = yield from self.ev(x, env)
            return o
        if k == "idx":
            o = yield from self.ev(n[1], env)
            i = yield from self.ev(n[2], env)
            return self.index(o, i, n[3])
        if k == "prop":
            o = yield from self.ev(n[1], env)
            try: return getprop(o, n[2])
            except Throw:
                if n[3]: return None
                raise
        if k == "slice":
            o = yield from self.ev(n[1], env)
            b = (yield from self.ev(n[2], env)) if n[2] else None
            e = (yield from self.ev(n[3], env)) if n[3] else None
            return self.slice(o, b, e)
        if k == "call":
            f = yield from self.ev(n[1], env)
            return (yield from self.docall(f, None, n[2], n[3], env))
        if k == "mcall":
            o = yield from self.ev(n[1], env)
            f = getprop(o, n[2])
            return (yield from self.docall(f, o, n[3], None, env))
        if k == "amethod":   # built-in methods of arrays and strings
            o = yield from self.ev(n[1], env)
            if not isinstance(o, Arr): raise rt()   # the method is looked up before arguments are evaluated
            args = []
            for a in n[3]:
                args.append((yield from self.ev(a, env)))
            return self.amethod(o, n[2], args)
        if k == "supercall":
            args = []
            for a in n[1]: args.append((yield from self.ev(a, env)))
            base = env.cls.base
            if base is not None:
                yield from self.initobj(base, env.this, args)
            return env.this
        if k == "superprop":
            base = env.cls.base
            if base is None: raise rt()
            f = getprop(base.proto, n[1])
            return (yield from self.docall(f, env.this, n[2], None, env))
        if k == "this": return env.this
        if k == "fun":
            return (yield from self.mkfun(n, env))
        if k == "yield":
            v = yield from self.ev(n[1], env)
            return (yield v)
        if k == "interp":
            r = []
            for x in n[1]:
                if isinstance(x, str): r.append(x)
                else:
                    v = yield from self.ev(x, env)
                    r.append(self.tostr(v))
            return "".join(r)
        if k == "inst":
            a = yield from self.ev(n[1], env)
            c = yield from self.ev(n[2], env)
            return self.instanceof(a, c)
        if k == "in":
            a = yield from self.ev(n[1], env)
            o = yield from self.ev(n[2], env)
            return haspr(o, a, n[3])
        if k == "stream":
            v = yield from self.ev(n[1], env)
            f = yield from self.ev(n[2], env)
            return (yield from self.call(f, None, [v]))
        if k == "map":
            f = yield from self.ev(n[1], env)
            v = yield from self.ev(n[2], env)
            nxt = self.iterate(v)
            r = []
            while True:
                ok, x = yield from nxt()
                if not ok: return Arr(r)
                r.append((yield from self.call(f, None, [x])))
        if k == "apply":
            f = yield from self.ev(n[1], env)
            t = yield from self.ev(n[2], env)
            a = yield from self.ev(n[3], env)
            if not isinstance(f, (Fun, Gen)): raise rt()
            if not isinstance(a, Arr): raise rt()
            return (yield from self.call(f, t, list(a.l)))
        if k == "X":   # value of a caught exception
            return env.lookup(n[1]).v[n[1]]
        raise AssertionError(k)

    def docall(self, f, this, args, named, env):
        if named is not None:
            vals = {}
            for name, x in named:
                vals[name] = yield from self.ev(x, env)
            if not isinstance(f, (Fun, Cls, Gen, Builtin)): raise rt()
            return (yield from self.call(f, this, [], vals))
        av = []
        for sp, x in args:
            v = yield from self.ev(x, env)
            if sp: av.extend((yield from self.items(v)))
            else: av.append(v)
        return (yield from self.call(f, this, av))

    def tostr(self, v):
        if v is None: return "void"
        if v is True: return "true"
        if v is False: return "false"
        if isinstance(v, int): return str(v)
        if isinstance(v, str): return v
        raise AssertionError("tostr " + repr(v))

    def instanceof(self, a, c):
        if not isinstance(c, Cls): return False
        if not isinstance(a, Obj): return False
        p = a.proto
        while p is not None:
            if p is c.proto: return True
            p = p.proto
        return False

    def binop(self, op, a, b):
        try:
            if op in ("+", "-", "*", "/", "%"): return kops.arith(op, a, b)
            if op in ("&", "|", "^", "<<", ">>", ">>>"): return kops.bitop(op, a, b)
        except KosError:
            raise rt()
        c = cmp(a, b)
        if op == "==": return c == 0
        if op == "!=": return c != 0
        if c == 7: raise AssertionError("reference: unspecified comparison")
        if c is None: return False
        return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]

    def index(self, o, i, opt=False):
        if isinstance(i, str):
            try: return getprop(o, i)
            except Throw:
                if opt: return None
                raise
        if isinstance(o, (Arr, str)):
            if not kops.is_num(i): raise rt()
            try: i = kops.to_int(i)
            except KosError: raise rt()
            l = o.l if isinstance(o, Arr) else o
            if i < 0: i += len(l)
            if i < 0 or i >= len(l):
                if opt: return None
                raise rt()
            return l[i]
        if opt and kops.is_num(i): raise Budget()   # unspecified: depends on how the index is written
        raise rt()

    def slice(self, o, b, e):
        if not isinstance(o, (Arr, str)): raise rt()
        l = o.l if isinstance(o, Arr) else o
        b, e = self.sl(len(l), b, e)
        return Arr(l[b:e]) if isinstance(o, Arr) else l[b:e]

    def sl(self, n, b, e):
        def fix(x, d):
            if x is None: return d
            try: x = kops.to_int(x)
            except KosError: raise rt()
            if x < 0: x += n
            return max(0, min(n, x))
        b = fix(b, 0); e = fix(e, n)
        return b, max(b, e)

    def amethod(self, o, name, args):
        if isinstance(o, Arr):
            if name == "push":
                old = len(o.l)
                o.l.extend(args)
                if len(o.l) > 400: raise Budget()
                return None if not args else old
            if name == "pop":
                if not o.l: raise rt()
                return o.l.pop()
        raise rt()

    def mkfun(self, n, env):
        f = Fun()
        f.made = next(CLOCK)
        f.node = n
        f.env = env
        f.name = n[1]
        f.isgen = n[5]
        f.cls = env.cls
        f.defaults = {}
        for p, d in n[2]:
            if d is not None:
                f.defaults[p] = yield from self.ev(d, env)
        return f

    # -- statements ------------------------------------------------------------------------
    def block(self, stmts, env, new=True):
        e = Env(env) if new else env
        yield from self.seq(stmts, 0, e)

    def seq(self, stmts, i, e):
        while i < len(stmts):
            s = stmts[i]
            if s[0] == "defer":
                try:
                    # variables declared after the defer statement are not visible in it
                    yield from self.seq(stmts, i + 1, Env(e))
                except (Throw, Brk, Cont, Ret, Fall):
                    # a jump or exception out of the deferred block replaces the pending one
                    yield from self.block(s[1], e)
                    raise
                else:
                    yield from self.block(s[1], e)
                return
            yield from self.st(s, e)
            i += 1

    def assign(self, t, v, env):
        k = t[0]
        if k == "var": env.lookup(t[1]).v[t[1]] = v
        elif k == "_": pass
        elif k == "prop":
            o = yield from self.ev(t[1], env)
            self.setprop(o, t[2], v)
        elif k == "idx":
            o = yield from self.ev(t[1], env)
            i = yield from self.ev(t[2], env)
            self.setidx(o, i, v)
        elif k == "slice":
            o = yield from self.ev(t[1], env)
            b = (yield from self.ev(t[2], env)) if t[2] else None
            e = (yield from self.ev(t[3], env)) if t[3] else None
            if not isinstance(o, Arr): raise rt()
            b, e = self.sl(len(o.l), b, e)
            o.l[b:e] = yield from self.items(v)
        else: raise AssertionError(k)

    def setprop(self, o, name, v):
        if not isinstance(o, Obj): raise rt()
        o.p[name] = v

    def setidx(self, o, i, v):
        if isinstance(i, str): return self.setprop(o, i, v)
        if not isinstance(o, Arr): raise rt()
        if not kops.is_num(i): raise rt()
        try: i = kops.to_int(i)
        except KosError: raise rt()
        if i < 0: i += len(o.l)
        if i < 0 or i >= len(o.l): raise rt()
        o.l[i] = v

    def st(self, s, env):
        self.tick()
        k = s[0]
        if k == "expr":
            yield from self.ev(s[1], env)
        elif k == "decl":      # names, expr, const
            v = yield from self.ev(s[2], env)
            if len(s[1]) == 1:
                env.v[s[1][0]] = v
            else:
                nxt = self.iterate(v)
                for nm in s[1]:
                    ok, x = yield from nxt()
                    if not ok: raise Throw(GEND)
                    if nm != "_": env.v[nm] = x
        elif k == "assign":
            v = yield from self.ev(s[2], env)
            yield from self.assign(s[1], v, env)
        elif k == "massign":
            v = yield from self.ev(s[2], env)
            nxt = self.iterate(v)
            for t in s[1]:
                ok, x = yield from nxt()
                if not ok: raise Throw(GEND)
                yield from self.assign(t, x, env)
        elif k == "opassign":
            t = s[1]
            v = yield from self.ev(s[3], env)
            if t[0] == "var":
                cell = env.lookup(t[1])
                cell.v[t[1]] = self.binop(s[2], cell.v[t[1]], v)
            elif t[0] == "prop":
                o = yield from self.ev(t[1], env)
                self.setprop(o, t[2], self.binop(s[2], getprop(o, t[2]), v))
            else:
                o = yield from self.ev(t[1], env)
                i = yield from self.ev(t[2], env)
                self.setidx(o, i, self.binop(s[2], self.index(o, i), v))
        elif k == "if":
            for c, b in s[1]:
                if c is None or truthy((yield from self.ev(c, env))):
                    yield from self.block(b, env)
                    return
        elif k == "while":
            while truthy((yield from self.ev(s[1], env))):
                try: yield from self.block(s[2], env)
                except Brk: return
                except Cont: continue
        elif k == "repeat":
            while True:
                try: yield from self.block(s[2], env)
                except Brk: return
                except Cont: pass
                if not truthy((yield from self.ev(s[1], env))): return
        elif k == "loop":
            while True:
                self.tick()
                try: yield from self.block(s[1], env)
                except Brk: return
                except Cont: continue
        elif k == "for":       # names, expr, body
            v = yield from self.ev(s[2], env)
            nxt = self.iterate(v)
            while True:
                ok, x = yield from nxt()
                if not ok: return
                e = Env(env)
                if len(s[1]) == 1: e.v[s[1][0]] = x
                else:
                    n2 = self.iterate(x)
                    for nm in s[1]:
                        ok, y = yield from n2()
                        if not ok: raise Throw(GEND)
                        if nm != "_": e.v[nm] = y
                try: yield from self.block(s[3], e)
                except Brk: return
                except Cont: continue
        elif k == "switch":    # expr, [(values or None, block)]
            v = yield from self.ev(s[1], env)
            hit = None
            dflt = None
            for i, (vals, b) in enumerate(s[2]):
                if vals is None: dflt = i; continue
                for x in vals:
                    y = yield from self.ev(x, env)
                    if cmp(v, y) == 0: hit = i; break
                if hit is not None: break
            if hit is None: hit = dflt
            if hit is None: return
            while True:
                try:
                    yield from self.block(s[2][hit][1], env)
                    return
                except Fall: hit += 1
                except Brk: return
        elif k == "try":       # body, catch var, catch body
            try:
                yield from self.block(s[1], env)
            except Throw as t:
                e = Env(env)
                e.v[s[2]] = t.value
                yield from self.block(s[3], e)
        elif k == "with":      # [(name or None, expr)], body
            yield from self.withst(s[1], 0, s[2], Env(env))
        elif k == "throw":
            raise RealThrow((yield from self.ev(s[1], env)))
        elif k == "rethrow":
            raise RealThrow(env.lookup(s[1]).v[s[1]])
        elif k == "assert":
            if not truthy((yield from self.ev(s[1], env))): raise RealThrow(RTV)
        elif k == "return":
            raise Ret((yield from self.ev(s[1], env)) if s[1] is not None else None)
        elif k == "break": raise Brk()
        elif k == "continue": raise Cont()
        elif k == "fallthrough": raise Fall()
        elif k == "do":
            yield from self.block(s[1], env)
        elif k == "fundecl":
            f = yield from self.mkfun(s[1], env)
            env.v[s[1][1]] = f
        elif k == "classdecl":  # name, base expr, ctor fun node or None, methods [(name, fun)], fields [(name, expr)]
            c = Cls()
            c.name = s[1]
            c.base = None
            c.proto = Obj()
            if s[2] is not None:
                b = yield from self.ev(s[2], env)
                c.base = b
                c.proto = Obj(b.proto)
            c.env = env
            c.ctor = None
            e = Env(env)
            e.cls = c
            if s[3] is not None:
                c.ctor = yield from self.mkfun(s[3], e)
            for nm, f in s[4]:
                c.proto.p[nm] = yield from self.mkfun(f, e)
            for nm, x in s[5]:
                c.proto.p[nm] = yield from self.ev(x, env)
            env.v[s[1]] = c
        elif k == "delete":
            o = yield from self.ev(s[1], env)
            if isinstance(o, Obj): o.p.pop(s[2], None)
        elif k == "raw": pass
        else: raise AssertionError(k)

    def withst(self, objs, i, body, env):
        if i == len(objs):
            yield from self.block(body, env)
            return
        name, x = objs[i]
        o = yield from self.ev(x, env)
        if name: env.v[name] = o
        if haspr(o, "acquire", True):
            yield from self.call(getprop(o, "acquire"), o, [])
        try:
            yield from self.withst(objs, i + 1, body, env)
        except (Throw, Brk, Cont, Ret, Fall):
            yield from self.call(getprop(o, "release"), o, [])
            raise
        else:
            yield from self.call(getprop(o, "release"), o, [])

    def run(self, prog):
        env = Env(None)
        g = self.seq(prog, 0, env)
        try:
            next(g)
        except StopIteration:
            return self.out, None
        except Throw as t:
            return self.out, t
        raise AssertionError("reference: yield at top level")

class RealThrow(Throw):
    pass

# ---------------------------------------------------------------------------------------------
# Printer

class Printer:
    """Prints a tree as Kos source.  opaque: hide every literal from the optimizer behind a call."""
    def __init__(self, opaque=False):
        self.opaque = opaque
        self.ind = 0
        self.lines = []
    def w(self, s): self.lines.append("  " * self.ind + s)

    def e(self, n):
        k = n[0]
        if k == "lit":
            s = klit(n[1])
            if isinstance(n[1], float): s = "(" + repr(n[1]) + ")" if n[1] == n[1] and abs(n[1]) < 1e15 and "e" not in repr(n[1]) else s
            return "Q(%s)" % s if self.opaque else s
        if k == "var": return n[1]
        if k == "X": return "X(%s)" % n[1]
        if k == "q": return "Q(%s)" % self.e(n[1])
        if k == "E": return "E(%d, %s)" % (n[1], self.e(n[2]))
        if k == "bin": return "(%s %s %s)" % (self.e(n[2]), n[1], self.e(n[3]))
        if k == "un": return "(%s %s)" % (n[1], self.e(n[2]))
        if k == "cond": return "(%s ? %s : %s)" % (self.e(n[1]), self.e(n[2]), self.e(n[3]))
        if k == "arr": return "[" + ", ".join(self.e(x) + ("..." if sp else "") for sp, x in n[1]) + "]"
        if k == "obj": return "{" + ", ".join("%s: %s" % (nm, self.e(x)) for nm, x in n[1]) + "}"
        if k == "idx": return "%s[%s%s]" % (self.prim(n[1]), "?" if n[3] else "", self.e(n[2]))
        if k == "prop": return "%s.%s%s" % (self.prim(n[1]), "?" if n[3] else "", n[2])
        if k == "slice": return "%s[%s:%s]" % (self.prim(n[1]), self.e(n[2]) if n[2] else "", self.e(n[3]) if n[3] else "")
        if k == "call": return "%s(%s)" % (self.prim(n[1]), self.args(n[2], n[3]))
        if k == "mcall": return "%s.%s(%s)" % (self.prim(n[1]), n[2], self.args(n[3], None))
        if k == "amethod": return "%s.%s(%s)" % (self.prim(n[1]), n[2], ", ".join(self.e(x) for x in n[3]))
        if k == "supercall": return "super(%s)" % ", ".join(self.e(x) for x in n[1])
        if k == "superprop": return "super.%s(%s)" % (n[1], self.args(n[2], None))
        if k == "this": return "this"
        if k == "yield": return "(yield %s)" % self.e(n[1])
        if k == "inst": return "(%s instanceof %s)" % (self.e(n[1]), self.e(n[2]))
        if k == "in": return "(%s %s %s)" % (self.e(n[1]), "propertyof" if n[3] else "in", self.e(n[2]))
        if k == "stream": return "(%s -> %s)" % (self.e(n[1]), self.e(n[2]))
        if k == "map": return "[map(%s, %s)...]" % (self.e(n[1]), self.e(n[2]))
        if k == "apply": return "%s.apply(%s, %s)" % (self.prim(n[1]), self.e(n[2]), self.e(n[3]))
        if k == "interp":
            return '"' + "".join(kstr(x)[1:-1] if isinstance(x, str) else "\\(%s)" % self.e(x) for x in n[1]) + '"'
        if k == "fun":
            ps = self.params(n)
            if n[4][0] == "expr":
                b = self.e(n[4][1])
                if b.startswith("{"): b = "(%s)" % b
                return "((%s) => %s)" % (ps, b)
            sub = Printer(self.opaque)
            sub.ind = self.ind + 1
            sub.stmts(n[4][1])
            return "(fun(%s) {\n%s\n%s})" % (ps, "\n".join(sub.lines), "  " * self.ind)
        raise AssertionError(k)

    def prim(self, n):
        s = self.e(n)
        if n[0] in ("lit", "obj"): return "(%s)" % s
        return s

    def args(self, a, named):
        if named is not None:
            return ", ".join("%s = %s" % (nm, self.e(x)) for nm, x in named)
        return ", ".join(self.e(x) + ("..." if sp else "") for sp, x in a)

    def params(self, n):
        r = []
        for p, d in n[2]:
            r.append(p if d is None else "%s = %s" % (p, self.e(d)))
        if n[3]: r.append(n[3] + "...")
        return ", ".join(r)

    def body(self, stmts):
        self.ind += 1
        self.stmts(stmts)
        self.ind -= 1

    def stmts(self, ss):
        for s in ss: self.s(s)

    def tgt(self, t):
        return "_" if t[0] == "_" else self.e(t)

    def s(self, s):
        k = s[0]
        if k == "expr": self.w(self.e(s[1]) + ";")
        elif k == "decl":
            x = self.e(s[2])
            if self.opaque and not x.startswith("Q("): x = "Q(%s)" % x
            self.w("%s %s = %s;" % ("const" if s[3] else "var", ", ".join(s[1]), x))
        elif k == "assign": self.w("%s = %s;" % (self.tgt(s[1]), self.e(s[2])))
        elif k == "massign": self.w("%s = %s;" % (", ".join(self.tgt(t) for t in s[1]), self.e(s[2])))
        elif k == "opassign": self.w("%s %s= %s;" % (self.tgt(s[1]), s[2], self.e(s[3])))
        elif k == "if":
            for i, (c, b) in enumerate(s[1]):
                if i == 0: self.w("if %s {" % self.e(c))
                elif c is None: self.w("else {")
                else: self.w("else if %s {" % self.e(c))
                self.body(b)
                self.w("}")
        elif k == "while":
            self.w("while %s {" % self.e(s[1])); self.body(s[2]); self.w("}")
        elif k == "repeat":
            self.w("repeat {"); self.body(s[2]); self.w("} while %s;" % self.e(s[1]))
        elif k == "loop":
            self.w("loop {"); self.body(s[1]); self.w("}")
        elif k == "for":
            self.w("for %s %s in %s {" % (s[4], ", ".join(s[1]), self.e(s[2]))); self.body(s[3]); self.w("}")
        elif k == "switch":
            self.w("switch %s {" % self.e(s[1]))
            for vals, b in s[2]:
                self.w("default {" if vals is None else "case %s {" % ", ".join(self.e(x) for x in vals))
                self.body(b)
                self.w("}")
            self.w("}")
        elif k == "try":
            self.w("try {"); self.body(s[1]); self.w("} catch const %s {" % s[2]); self.body(s[3]); self.w("}")
        elif k == "defer":
            self.w("defer {"); self.body(s[1]); self.w("}")
        elif k == "with":
            self.w("with %s {" % ", ".join(("const %s = " % nm if nm else "") + ("Q(%s)" % self.e(x) if x[0] != "q" else self.e(x)) for nm, x in s[1]))
            self.body(s[2]); self.w("}")
        elif k == "throw": self.w("throw %s;" % self.e(s[1]))
        elif k == "rethrow": self.w("throw %s;" % s[1])
        elif k == "assert": self.w("assert %s;" % self.e(s[1]))
        elif k == "return": self.w("return%s;" % (" " + self.e(s[1]) if s[1] is not None else ""))
        elif k in ("break", "continue", "fallthrough"): self.w(k + ";")
        elif k == "do":
            self.w("do {"); self.body(s[1]); self.w("}")
        elif k == "fundecl":
            n = s[1]
            self.w("fun %s(%s) {" % (n[1], self.params(n))); self.body(n[4][1]); self.w("}")
        elif k == "classdecl":
            self.w("class %s%s {" % (s[1], " extends " + self.e(s[2]) if s[2] is not None else ""))
            self.ind += 1
            if s[3] is not None:
                self.w("constructor(%s) {" % self.params(s[3])); self.body(s[3][4][1]); self.w("}")
            for nm, f in s[4]:
                self.w("fun %s(%s) {" % (nm, self.params(f))); self.body(f[4][1]); self.w("}")
            for nm, x in s[5]:
                self.w("var %s = %s" % (nm, self.e(x)))
            self.ind -= 1
            self.w("}")
        elif k == "delete": self.w("delete %s.%s;" % (self.prim(s[1]), s[2]))
        elif k == "raw": self.w(s[1])
        else: raise AssertionError(k)

def source(prog, opaque=False):
    p = Printer(opaque)
    p.stmts(prog)
    return "\n".join(p.lines) + "\n"

LANG_PRELUDE = r'''
const Q = x => x
fun E(k, v) { io.stdout.write("E " + string(k) + " " + S(v) + "\n"); return v }
fun X(e) {
    const v = e.value
    if typeof v == "string" && v[:2] != "u:" { return "rt" }
    if v instanceof generator_end { return "end" }
    return v
}
'''
