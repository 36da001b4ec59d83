import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import copy_out, verus
ck = Check("C06")
symbolic(ck, "h_arith")
symbolic(ck, "h_circ", hook=True)
copy_out("msm", [("crates/ragu_arithmetic/src/util.rs", "bucket_lookup"), ("crates/ragu_arithmetic/src/util.rs", "get_at")])
kani(ck, "msm", "ragu_arithmetic mul: bucket_lookup, get_at")
verus(ck, "c06")
ck.finish()
