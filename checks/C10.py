import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
from verus import verus
ck = Check("C10")
symbolic(ck, "h_circ", hook=True, assume=FORKS)
for t in ("1", "2", "8"):
    symbolic(ck, "h_circ", hook=True, assume=FORKS, features="mc", run_env={"RAYON_NUM_THREADS": t}, tag=f"multicore, {t} threads")
verus(ck, "c10")
ck.finish()
