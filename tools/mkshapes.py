#!/usr/bin/env python3
"""Writes harness/h_core/src/shapes.rs: gadget types over every combination of field kinds, and what each must do."""
import itertools, random
NAMES = ["m", "b", "z", "a", "k", "c", "y", "d", "q", "e", "x", "f"]
# wire, value, explicit gadget (element), default gadget (boolean), skipped explicit gadget (boolean), phantom,
# default gadget that is itself derived, fixed vector, array in a box, skipped default gadget
ALL = "wvebsmnfpu"
def ty(k, D, L):
    return {"w": f"{D}::Wire", "v": f"DriverValue<{D}, u64>", "e": f"Element<{L}, {D}>", "b": f"Boolean<{L}, {D}>",
            "s": f"Boolean<{L}, {D}>", "m": f"PhantomData<{D}::Wire>", "n": f"Inner<{L}, {D}>",
            "f": f"FixedVec<Boolean<{L}, {D}>, ConstLen<3>>", "p": f"Box<[(Element<{L}, {D}>, Boolean<{L}, {D}>); 2]>",
            "u": f"Boolean<{L}, {D}>"}[k]
def attrs(k, style):
    a = {"w": ["wire", "skip"], "v": ["value", "skip"], "e": ["gadget"], "b": [], "s": ["gadget", "skip"], "m": ["phantom"],
         "n": [], "f": [], "p": ["gadget"], "u": ["skip"]}[k]
    if not a:
        return ""
    if style == 0:
        return " ".join(f"#[ragu({x})]" for x in a) + " "
    if style == 1:
        return f"#[ragu({', '.join(reversed(a))})] "
    return " ".join(f"#[ragu({x})]" for x in reversed(a)) + " "
SUB = {"e": "El", "b": "Bo", "s": "Bo", "n": "Kind![Fp; @Inner<'_, _>]", "f": "FixedVec<PhantomData<Bo>, ConstLen<3>>",
       "p": "PhantomData<Box<[PhantomData<(PhantomData<El>, PhantomData<Bo>)>; 2]>>", "u": "Bo"}
def struct(name, fields, style):
    D, L = [("D", "'dr"), ("MyD", "'mydr"), ("Driv", "'a")][style]
    # a marked driver may have any name; an unmarked one is D with lifetime 'dr
    mark = "" if style == 0 else "#[ragu(driver)] "
    out = [f"#[derive(Gadget, Write, Consistent)]\npub struct {name}<{L}, {mark}{D}: Driver<{L}>> {{"]
    out += [f"    {attrs(k, style)}pub {n}: {ty(k, D, L)}," for n, k in zip(NAMES, fields)]
    out.append("}")
    out.append(f"impl Shape for Kind![Fp; @{name}<'_, _>] {{")
    out.append("    fn build<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, n: &mut u64) -> Result<Bound<'dr, D, Self>> {")
    out.append(f"        Ok({name} {{")
    for n, k in zip(NAMES, fields):
        e = {"w": "wire(dr, n)?", "v": "val::<D>(n)", "m": "PhantomData"}.get(k) or f"<{SUB[k]} as Shape>::build(dr, n)?"
        out.append(f"            {n}: {e},")
    out.append("        })\n    }")
    out.append("    fn flat<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, o: &mut Vec<Leaf<D::Wire>>) {")
    for n, k in zip(NAMES, fields):
        if k == "w":
            out.append(f"        o.push(Leaf::wire(&g.{n}));")
        elif k == "v":
            out.append(f"        o.push(Leaf::val(rd(g.{n}.as_ref().map(|x| *x))));")
        elif k == "m":
            out.append(f"        let _: PhantomData<_> = g.{n};")
        else:
            w = "skipped(o, |o| " if k in "su" else ""
            out.append(f"        {w}<{SUB[k]} as Shape>::flat::<D>(&g.{n}, o){')' if w else ''};")
    out.append("    }")
    out.append("    fn consistent<'dr, D: Driver<'dr, F = Fp>>(g: &Bound<'dr, D, Self>, dr: &mut D) -> Result<()> {\n        Consistent::enforce_consistent(g, dr)\n    }")
    out.append("}")
    return "\n".join(out)
out = ["//! Written by tools/mkshapes.py.", "#![allow(unused_variables)]\nuse crate::c17::*;", ""]
shapes = [c for n in (1, 2) for c in itertools.product("wvebsm", repeat=n)]
shapes += [(a, b) for a in "nfpu" for b in "wb"] + [(b, a) for a in "nfpu" for b in "we"]
rng = random.Random(7)
three = list(itertools.permutations("web", 3)) + list(itertools.permutations("wse", 3)) + list(itertools.permutations("wvb", 3))
rest = [c for c in itertools.product(ALL, repeat=3) if c not in three]
shapes += three + rng.sample(rest, 36)
shapes += [tuple("wvebsmwb"), tuple("bnmfwsveupw"), tuple("eeeewwwwbbbb"), tuple("puvfwnmbse"), tuple("ssssuubb")]
shapes = [s for s in shapes if set(s) - set("v")]
kinds = []
for i, s in enumerate(shapes):
    name = f"S{i}"
    out.append(struct(name, s, i % 3))
    kinds.append((f"Kind![Fp; @{name}<'_, _>]", "".join(s)))
B, E = "Bo", "El"
kinds += [("()", "unit"), (f"[PhantomData<{B}>; 0]", "array of 0"), (f"[PhantomData<{E}>; 1]", "array of 1"), (f"[PhantomData<{B}>; 5]", "array of 5"),
          (f"(PhantomData<{B}>, PhantomData<{E}>)", "pair"), (f"(PhantomData<()>, PhantomData<(PhantomData<{B}>, PhantomData<{B}>)>)", "pair of unit and pair"),
          (f"PhantomData<Box<{B}>>", "box"), (f"PhantomData<Box<(PhantomData<{E}>, PhantomData<{B}>)>>", "box of pair"),
          (f"FixedVec<PhantomData<{B}>, ConstLen<0>>", "fixed 0"), (f"FixedVec<PhantomData<{B}>, ConstLen<1>>", "fixed 1"),
          (f"FixedVec<PhantomData<Kind![Fp; @S{shapes.index(tuple('wvebsmwb'))}<'_, _>]>, ConstLen<4>>", "fixed 4 of wvebsmwb"),
          (f"[PhantomData<FixedVec<PhantomData<(PhantomData<{E}>, PhantomData<{B}>)>, ConstLen<2>>>; 3]", "array of fixed of pairs"),
          (E, "element"), (B, "boolean"), ("Kind![Fp; @Inner<'_, _>]", "Inner"), ("Kind![Fp; @Generic<'_, _, 3>]", "Generic 3"),
          ("Kind![Fp; @Tagged<'_, _, u8>]", "Tagged"), ("Kind![Fp; @Scaled<'_, _, Third>]", "Scaled")]
out.append("pub fn each<V: Visit>(v: &mut V) {")
out += [f"    v.shape::<{k}>({n!r});".replace("'", '"') if "'" not in k else f'    v.shape::<{k}>("{n}");' for k, n in kinds]
out.append("}\n")
open("/verif/harness/h_core/src/shapes.rs", "w").write("\n".join(out))
print(len(kinds), "shapes")
