import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C17")
symbolic(ck, "h_core", n=3, hook=True, tag="core")
symbolic(ck, "h_circ", n=1500, hook=True, tag="circ")
verus(ck, "c17")
ck.finish()
