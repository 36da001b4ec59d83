import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C18")
ck.functions += ["header::Suffix::{new,get,internal}"]
ck.assumptions += ["suffixes are usize on a 64-bit target"]
kani(ck, "header", "ragu_pcd::header")
symbolic(ck, "h_pcd", hook=True)
verus(ck, "c18")
ck.finish()
