import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang

def check(c):
    b = vlib.build("asan")
    klang.explore(c, b, "flow", c.n(2200, 30000), bloated=0.15)
    klang.explore(c, b, "default", c.n(900, 15000), size=60, bloated=0.1)

if __name__ == "__main__": vlib.main(check, "C03", rule="random programs dominated by branches, loops, switches, breaks; non-trivial: at least one event recorded; the trace must equal the trace of the reference",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
