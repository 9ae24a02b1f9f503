"""C19: elements of an array shared by threads behave as atomic registers, and no push is lost."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ksched

def check(c):
    ksched.conc(c, ["arr", "push", "buf"])

if __name__ == "__main__": vlib.main(check, "C19", rule="histories of read, write and compare-and-swap on a shared array while it grows, checked for linearizability per element; pushes and buffer bytes checked for conservation; non-trivial: distinct schedule and workload",
          assumptions=["the controlled scheduler preempts at atomic operations and pthread calls and is sequentially consistent; ThreadSanitizer covers the ordering of plain accesses"])
