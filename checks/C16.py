import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
ck = Check("C16")
symbolic(ck, "h_prim", hook=True)
symbolic(ck, "h_pcd", hook=True)
ck.finish()
