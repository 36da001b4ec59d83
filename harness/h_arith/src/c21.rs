//! Contracts of wide literals and of the parameters built from them.
use crate::{power, small};
use ff::{PrimeField, WithSmallOrderMulGroup};
use group::Curve;
use num_bigint::BigUint;
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use ragu_arithmetic::{Cycle, FixedGenerators, repr256};
use ragu_pasta::{Pasta, fp, fq};
use vcd::{Contract, Model, explore};

// the macro's evaluation function, as it is in /repo
#[allow(dead_code)]
mod repr {
    include!("/repo/crates/ragu_macros/src/proc/repr.rs");
}
fn limbs(text: &str) -> Option<Vec<u64>> {
    let lit: syn::LitInt = syn::parse_str(text).ok()?;
    let out = repr::evaluate(lit).ok()?.to_string();
    let out = out.trim().strip_prefix('[')?.strip_suffix(']')?.to_string();
    out.split(',').map(|t| t.trim()).filter(|t| !t.is_empty()).map(|t| t.trim_end_matches("u64").trim().parse().ok()).collect()
}
fn number() -> BigUint {
    // limbs that are zero, one, maximal or random; sometimes beyond 2^256
    let n = small::<Fp>("limbs", 3) % 6;
    let mut x = BigUint::from(0u8);
    for _ in 0..n {
        let l = match small::<Fp>("kind", 2) {
            0 => 0u64,
            1 => u64::MAX,
            2 => 1 << (small::<Fp>("bit", 6)),
            _ => (small::<Fp>("hi", 32) as u64) << 32 | small::<Fp>("lo", 32) as u64,
        };
        x = (x << 64u32) + BigUint::from(l);
    }
    x
}
fn literal() {
    let x = number();
    let want: Vec<u64> = (0..4).map(|i| (&(&x >> (64u32 * i)) & BigUint::from(u64::MAX)).try_into().unwrap()).collect();
    let fits = x.bits() <= 256;
    let grouped = |s: String| {
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() {
            if i > 0 && i % 5 == 0 {
                o.push('_');
            }
            o.push(c);
        }
        o
    };
    let texts = [
        format!("{x}"),
        format!("0x{x:x}"),
        format!("0x{x:X}"),
        format!("0x000{x:x}"),
        format!("0b{x:b}"),
        format!("0o{x:o}"),
        format!("0x{}", grouped(format!("{x:x}"))),
        grouped(format!("{x}")),
    ];
    for t in texts {
        let got = limbs(&t);
        if fits {
            Fp::check(got.as_ref() == Some(&want), "repr256: four little-endian limbs of the same integer, in every radix");
        } else {
            Fp::check(got.is_none(), "repr256: more than 256 bits is refused");
        }
    }
}
fn boundary() {
    let one = BigUint::from(1u8);
    for k in [63u32, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 300, 512] {
        for x in [(&one << k) - 1u8, &one << k, (&one << k) + 1u8] {
            let want: Vec<u64> = (0..4).map(|i| (&(&x >> (64u32 * i)) & BigUint::from(u64::MAX)).try_into().unwrap()).collect();
            for t in [format!("{x}"), format!("0x{x:x}"), format!("0b{x:b}"), format!("0o{x:o}")] {
                let got = limbs(&t);
                if x.bits() <= 256 {
                    Fp::check(got.as_ref() == Some(&want), "repr256: limbs at the limb boundaries");
                } else {
                    Fp::check(got.is_none(), "repr256: more than 256 bits is refused");
                }
            }
        }
    }
}
/// The macro as expanded by the compiler, and the field literals built on it.
fn expanded() {
    Fp::check(repr256!(0x0000000000000004000000000000000300000000000000020000000000000001) == [1u64, 2, 3, 4], "repr256!: little-endian limbs");
    Fp::check(repr256!(0) == [0u64; 4], "repr256!: zero");
    Fp::check(repr256!(18446744073709551616) == [0u64, 1, 0, 0], "repr256!: decimal");
    Fp::check(repr256!(0x0000000000000004000000000000000000000000000000020000000000000000) == [0u64, 2, 0, 4], "repr256!: interior and trailing zero limbs");
    let two64 = power(Fp::from(2), 64);
    let want = Fp::from(1) + two64 * (Fp::from(2) + two64 * (Fp::from(3) + two64 * Fp::from(4)));
    Fp::check_eq(fp!(0x0000000000000004000000000000000300000000000000020000000000000001), want, "fp!: the integer as a field element");
    let two64 = power2(64);
    let want = Fq::from(1) + two64 * (Fq::from(2) + two64 * (Fq::from(3) + two64 * Fq::from(4)));
    Fp::check(fq!(0x0000000000000004000000000000000300000000000000020000000000000001) == want, "fq!: the integer as a field element");
}
fn power2(k: usize) -> Fq {
    (0..k).fold(Fq::from(1), |a, _| a.double())
}
fn field<F: PrimeField + WithSmallOrderMulGroup<3>>(ok: &mut bool) {
    let mut w = F::ROOT_OF_UNITY;
    for _ in 0..F::S - 1 {
        w = w.square();
    }
    *ok &= w == -F::ONE && F::ROOT_OF_UNITY * F::ROOT_OF_UNITY_INV == F::ONE;
    *ok &= F::TWO_INV.double() == F::ONE;
    *ok &= F::ZETA != F::ONE && F::ZETA.square() * F::ZETA == F::ONE;
}
fn curve<C: CurveAffine>(gens: &[C], h: &C, ok: &mut bool) {
    // the endomorphism multiplies by a cube root of unity, the same one for every point
    for p in gens.iter().take(3).chain([h]) {
        *ok &= bool::from(p.is_on_curve()) && !bool::from(p.is_identity());
        *ok &= p.to_curve().endo() == *p * C::ScalarExt::ZETA;
    }
    for p in gens {
        *ok &= bool::from(p.is_on_curve()) && !bool::from(p.is_identity()) && p != h;
    }
    let mut s: Vec<_> = gens.iter().map(|p| *p.coordinates().unwrap().x()).collect();
    s.sort();
    s.dedup();
    *ok &= s.len() == gens.len();
    // additively: g_i is the hash of its index
    let f = <C::CurveExt as CurveExt>::hash_to_curve("Ragu-Parameters");
    for i in [0usize, 1, 2, 255, 256, 257, gens.len() - 1] {
        let mut m = [0u8; 5];
        m[1..].copy_from_slice(&(i as u32).to_le_bytes());
        *ok &= f(&m).to_affine() == gens[i];
    }
    *ok &= f(&[1]).to_affine() == *h;
}
fn parameters() {
    let mut ok = true;
    field::<Fp>(&mut ok);
    field::<Fq>(&mut ok);
    Fp::check(ok, "fields: roots of unity, cube roots and inverses satisfy their equations");
    let params = Pasta::generate();
    let mut ok = true;
    curve::<EpAffine>(Pasta::nested_generators(&params).g(), Pasta::nested_generators(&params).h(), &mut ok);
    Fp::check(ok, "Pallas: generators are distinct points on the curve and the endomorphism multiplies by zeta");
    let mut ok = true;
    curve::<EqAffine>(Pasta::host_generators(&params).g(), Pasta::host_generators(&params).h(), &mut ok);
    Fp::check(ok, "Vesta: generators are distinct points on the curve and the endomorphism multiplies by zeta");
}
#[cfg(feature = "baked")]
fn baked() {
    let (want, got) = (Pasta::generate(), Pasta::baked());
    let same = |b: bool, l: &'static str| Fp::check(b, l);
    same(Pasta::nested_generators(got).g() == Pasta::nested_generators(&want).g() && Pasta::nested_generators(got).h() == Pasta::nested_generators(&want).h(), "baked parameters: the Pallas generators are the generated ones");
    same(Pasta::host_generators(got).g() == Pasta::host_generators(&want).g() && Pasta::host_generators(got).h() == Pasta::host_generators(&want).h(), "baked parameters: the Vesta generators are the generated ones");
}
pub fn register(v: &mut Vec<Contract>) {
    explore!(v, "C21", "repr256 evaluation", "ragu_macros proc/repr.rs evaluate", literal, bound "sampled integers up to 320 bits in every radix", weight 200);
    explore!(v, "C21", "repr256 boundaries", "ragu_macros proc/repr.rs evaluate", boundary, bound "limb and width boundaries in every radix", weight 1);
    explore!(v, "C21", "repr256!, fp!, fq! as compiled", "ragu_macros repr256, ragu_pasta fp, fq", expanded, bound "ground: listed literals", weight 1);
    explore!(v, "C21", "field and curve parameters", "ragu_pasta Pasta, PastaParams::generate", parameters, bound "ground: the parameters of both fields and curves", weight 1);
    #[cfg(feature = "baked")]
    explore!(v, "C21", "baked parameters", "ragu_pasta build script, get_point, Pasta::baked", baked, bound "ground: all generators of both curves", weight 1);
}
