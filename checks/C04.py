import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C04")
symbolic(ck, "h_arith")
verus(ck, "c04")
ck.finish()
