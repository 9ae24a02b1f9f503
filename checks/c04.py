import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang

def check(c):
    b = vlib.build("asan")
    klang.explore(c, b, "cleanup", c.n(3000, 40000), bloated=0.08)

if __name__ == "__main__": vlib.main(check, "C04", rule="random programs dominated by try, defer, with, throw, return, break; non-trivial: at least one event recorded",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
