import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from fw import *
ck = Check("C01")
ck.functions += ["Uendo::{From<u64>, From<u128>, PartialEq, BitAnd, BitOr, BitOrAssign, Shl, ShlAssign, Shr, Default, ZERO, ONE, BITS}",
                 "Distribution<Uendo> for StandardUniform"]
ck.assumptions += ["the generic instantiation of the sampling code with an arbitrary generator stands for every generator",
                   "shift amounts are usize on a 64-bit target"]
kani(ck, "uendo", "ragu_arithmetic::uendo")
ck.finish()
