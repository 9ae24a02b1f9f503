import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, klang

def check(c):
    b = vlib.build("asan")
    # each program twice: with its constants visible to the optimizer, and hidden behind calls
    klang.explore(c, b, "default", c.n(600, 12000), renderings=(False, True))
    klang.explore(c, b, "flow", c.n(500, 12000), renderings=(False, True), bloated=0.1)
    klang.explore(c, b, "data", c.n(400, 9000), renderings=(False, True))
    klang.explore(c, b, "closures", c.n(300, 9000), renderings=(False, True))

if __name__ == "__main__": vlib.main(check, "C02", rule="random programs executed in two renderings (constants visible and opaque); non-trivial: at least one event recorded; each rendering must produce the event trace of the reference",
          assumptions=["the reference interpreter in lib/kref.py states the documented semantics",
                       "programs outside its bounds (very long or deeply nested results) are skipped and counted"])
