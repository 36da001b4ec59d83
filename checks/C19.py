import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C19")
symbolic(ck, "h_pcd", hook=True, assume=FORKS)
verus(ck, "c19")
ck.finish()
