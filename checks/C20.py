import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C20")
symbolic(ck, "h_pcd", hook=True)
verus(ck, "c20")
ck.finish()
