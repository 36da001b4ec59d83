import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
ck = Check("C15")
symbolic(ck, "h_prim")
ck.finish()
