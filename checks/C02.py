import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
ck = Check("C02")
ck.functions += ["Maybe for Always / Empty: just, try_just, take, as_ref, as_mut, snag, clone, map, and_then, into, cast",
                 "MaybeKind: maybe_just, maybe_try_just, empty", "MaybeCast for tuples 2..=32 and arrays"]
ck.assumptions += ["generic functions are verified at representative type instantiations (Copy, owned with drop counting, zero-sized); "
                   "Rust generics are parametric, so no instantiation can behave differently without specialisation",
                   "array casts are verified for lengths 0,1,2,3,4,5,7,8,9,16,17,31,32,33,64"]
kani(ck, "maybe", "ragu_core::maybe", exhaustive_search=2000)
ck.finish()
