"""Profiles of the program generator: which constructs dominate."""
FLOW = dict(trace=8, decl=4, iff=9, whil=5, repeat=4, loop=4, forr=5, switch=6, tryy=4, ret=4, brk=9, do=2, fun=4,
            const_cond=0.25, term=0.3, defer=1, withh=0, cls=0, genf=0, delete=0, sliceassign=0, assertt=0)
CLEANUP = dict(trace=8, decl=2, tryy=9, defer=9, withh=6, throw=4, ret=3, brk=6, forr=3, loop=2, whil=2, repeat=1,
               switch=2, fun=4, iff=3, term=0.25, assertt=1, cls=0)
CALLS = dict(trace=5, fun=9, call=12, cls=1, decl=5, genf=0, tryy=2, forr=1, whil=0, repeat=0, loop=0, switch=0)
GENS = dict(trace=5, genf=9, gencall=9, forr=5, tryy=4, fun=2, defer=2, withh=1, cls=0, iff=3)
CLASSES = dict(trace=5, cls=9, call=9, fun=3, decl=4, idxassign=5, delete=3, tryy=2)
DATA = dict(trace=8, decl=8, assign=9, opassign=6, idxassign=9, sliceassign=5, push=5, multi=5, delete=3, fun=2, cls=0, genf=0)
CLOSURES = dict(trace=5, fun=12, call=9, assign=8, opassign=6, decl=6, forr=3, iff=3, cls=3, genf=2)
ALL = dict(default={}, flow=FLOW, cleanup=CLEANUP, calls=CALLS, gens=GENS, classes=CLASSES, data=DATA, closures=CLOSURES)
