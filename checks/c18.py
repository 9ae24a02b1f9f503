"""C18: properties of an object shared by threads behave as atomic registers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ksched

def check(c):
    ksched.conc(c, ["obj"])

if __name__ == "__main__": vlib.main(check, "C18", rule="histories of set, get and delete on a shared object while it grows, checked for linearizability per property; non-trivial: distinct schedule and workload",
          assumptions=["the controlled scheduler preempts at atomic operations and pthread calls and is sequentially consistent; ThreadSanitizer covers the ordering of plain accesses"])
