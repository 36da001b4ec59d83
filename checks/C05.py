import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import copy_out, verus
ck = Check("C05")
symbolic(ck, "h_arith")
verus(ck, "c05")
copy_out("bits", [("crates/ragu_arithmetic/src/fft.rs", "bitreverse")])
kani(ck, "bits", "ragu_arithmetic bitreverse")
ck.finish()
