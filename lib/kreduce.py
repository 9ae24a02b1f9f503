"""Shrinks a failing program tree: deletes statements and replaces expressions by their parts."""
import time

STM = {"expr","decl","assign","massign","opassign","if","while","repeat","loop","for","switch","try","defer","with","throw",
       "rethrow","assert","return","break","continue","fallthrough","do","fundecl","classdecl","delete","raw"}
EXP = {"lit","var","q","E","bin","un","cond","arr","obj","idx","prop","slice","call","mcall","amethod","supercall","superprop",
       "this","fun","yield","interp","inst","in","stream","map","apply","X"}

def is_stmt(x): return isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in STM
def is_slist(x): return isinstance(x, list) and x and all(is_stmt(y) for y in x)
def is_expr(x): return isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in EXP

def paths(x, p=()):
    """All positions in the tree."""
    yield p, x
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            if isinstance(y, (list, tuple)):
                yield from paths(y, p + (i,))

def setp(x, p, v):
    if not p: return v
    y = list(x)
    y[p[0]] = setp(x[p[0]], p[1:], v)
    return y if isinstance(x, list) else tuple(y)

def subexprs(x):
    out = []
    def rec(y, top):
        if not top and is_expr(y):
            out.append(y); return
        if isinstance(y, (list, tuple)):
            for z in y: rec(z, False)
    rec(x, True)
    return out

def reduce(prog, bad, limit_s=60):
    """bad(prog) -> True if still failing."""
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < limit_s:
        changed = False
        # delete statement chunks
        for p, x in list(paths(prog)):
            if time.time() - t0 > limit_s: break
            try:
                cur = prog
                for i in p: cur = cur[i]
            except (IndexError, TypeError): continue
            if is_slist(cur):
                n = len(cur)
                for size in (n, max(1, n // 2), 1):
                    i = 0
                    while i < len(cur):
                        cand = cur[:i] + cur[i + size:]
                        # also try to hoist nested blocks
                        q = setp(prog, p, cand)
                        if bad(q):
                            prog = q; cur = cand; changed = True
                        else: i += size
                        if time.time() - t0 > limit_s: break
                i = 0
                while i < len(cur) and time.time() - t0 < limit_s:
                    subs = [y for _, y in paths(cur[i]) if is_slist(y)]
                    hit = False
                    for y in subs[:6]:
                        cand = cur[:i] + list(y) + cur[i + 1:]
                        q = setp(prog, p, cand)
                        if bad(q):
                            prog = q; cur = cand; changed = True; hit = True
                            break
                    if not hit: i += 1
        for p, x in list(paths(prog)):
            if time.time() - t0 > limit_s: break
            try:
                cur = prog
                for i in p: cur = cur[i]
            except (IndexError, TypeError): continue
            if is_expr(cur) and cur[0] not in ("lit", "var"):
                for y in [("lit", 0), ("lit", True)] + subexprs(cur):
                    q = setp(prog, p, y)
                    if bad(q):
                        prog = q; changed = True
                        break
    return prog
