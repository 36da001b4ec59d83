//! Contracts of the transcript: a sponge that starts by binding its tag.
use ragu_pcd::verif::{self as hook, ResumedTranscript, Transcript};
use ragu_primitives::io::Buffer;
use ragu_primitives::poseidon::SaveError;
use ragu_core::maybe::Maybe;
use ragu_primitives::Element;
use ragu_arithmetic::PoseidonPermutation;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcd::sponge::{Spec, Toy};
use vcd::{Contract, Model, Vc, contract, just};

type El<M> = Element<'static, Vc<M>>;
type Tr<M> = Transcript<'static, Vc<M>, Toy<M>>;
enum T<M: Model>
where
    Toy<M>: PoseidonPermutation<M>,
{
    Full(Tr<M>),
    Resumed(ResumedTranscript<'static, Vc<M>, Toy<M>>),
}
fn post<M: Model>(o: &El<M>, hon: M, adv: M) {
    M::check_eq(o.wire().h, hon, "transcript: a challenge is the sponge's output");
    M::check_eq(*o.value().take(), hon, "transcript: a challenge is the sponge's output");
    M::check_adv_eq(o.wire().adv, adv, "transcript: a challenge is forced to be the sponge's output");
}
/// length, then sixteen bytes at a time, least significant first
fn bind<M: Model>(s: &mut Spec<M>, tag: &[u8]) {
    s.absorb(M::from(tag.len() as u64));
    let mut rest = tag;
    while !rest.is_empty() {
        let n = rest.len().min(16);
        let mut x = M::ZERO;
        for b in rest[..n].iter().rev() {
            x = x * M::from(256) + M::from(*b as u64);
        }
        s.absorb(x);
        rest = &rest[n..];
    }
}
fn start<M: Model>(dr: &mut Vc<M>, params: &'static Toy<M>, tag: &[u8]) -> (Tr<M>, Spec<M>, Spec<M>)
where
    Toy<M>: PoseidonPermutation<M>,
{
    let (mut hs, mut ad) = (Spec::new(params), Spec::new(params));
    bind(&mut hs, tag);
    bind(&mut ad, tag);
    (Transcript::new(dr, params, tag).unwrap(), hs, ad)
}
fn challenge<M: Model>(dr: &mut Vc<M>, t: &mut T<M>) -> El<M>
where
    Toy<M>: PoseidonPermutation<M>,
{
    match t {
        T::Full(t) => t.challenge(dr).unwrap(),
        T::Resumed(t) => t.challenge(dr).unwrap(),
    }
}
fn tags<M: Model>()
where
    Toy<M>: PoseidonPermutation<M>,
{
    let params: &'static Toy<M> = Box::leak(Box::new(Toy::new()));
    let byte = |i: usize| (i * i * 37 + 11 * i + 201) as u8;
    let mut all: Vec<Vec<u8>> = [0usize, 1, 2, 15, 16, 17, 31, 32, 33, 48, 70].iter().map(|n| (0..*n).map(byte).collect()).collect();
    all.push(hook::TAG.to_vec());
    all.push(vec![0; 16]);
    all.push(vec![0; 5]);
    all.push(vec![255; 16]);
    all.push([vec![7; 16], vec![0; 3]].concat());
    for tag in all {
        let dr = &mut Vc::<M>::new();
        let (mut t, mut hs, mut ad) = start(dr, params, &tag);
        let c = t.challenge(dr).unwrap();
        post(&c, hs.squeeze().unwrap(), ad.squeeze().unwrap());
    }
}
/// Every sequence of absorb, challenge, save-and-resume.
fn sequences<M: Model>()
where
    Toy<M>: PoseidonPermutation<M>,
{
    let params: &'static Toy<M> = Box::leak(Box::new(Toy::new()));
    for len in 0..=4u32 {
        for code in 0..3usize.pow(len) {
            for tag in [&[9u8, 8][..], &[3u8; 17]] {
                let dr = &mut Vc::<M>::new();
                let (t, mut hs, mut ad) = start(dr, params, tag);
                let mut t = Some(T::Full(t));
                let mut squeezed = true;
                let mut ops = code;
                for i in 0..len {
                    let op = ops % 3;
                    ops /= 3;
                    if op == 1 {
                        let c = challenge(dr, t.as_mut().unwrap());
                        squeezed = true;
                        post(&c, hs.squeeze().unwrap(), ad.squeeze().unwrap());
                        continue;
                    }
                    // both need a full transcript
                    let mut f = match t.take().unwrap() {
                        T::Full(f) => f,
                        T::Resumed(r) => {
                            let f = catch_unwind(AssertUnwindSafe(|| r.into_transcript()));
                            M::check(f.is_ok() == squeezed, "transcript: resumed, it absorbs only after a challenge was drawn");
                            match f {
                                Ok(f) => f,
                                Err(_) => {
                                                                        break;
                                }
                            }
                        }
                    };
                    if op == 0 {
                        let x = Element::alloc(dr, just(M::input(&format!("x{i}")))).unwrap();
                        Buffer::write(&mut f, dr, &x).unwrap();
                        hs.absorb(x.wire().h);
                        ad.absorb(x.wire().adv);
                        t = Some(T::Full(f));
                    } else {
                        let r = f.clone().save_state(dr);
                        if hs.squeezing {
                            M::check(matches!(r, Err(SaveError::AlreadyInSqueezeMode)), "transcript: saving with outputs pending is refused");
                            t = Some(T::Full(f));
                            continue;
                        }
                        let Ok(st) = r else {
                            M::check(false, "transcript: with something absorbed it can be saved");
                                                        break;
                        };
                        // continuing without the save
                        let mut go = hs.clone();
                        let c = f.challenge(dr).unwrap();
                        M::check_eq(c.wire().h, go.squeeze().unwrap(), "transcript: saving does not disturb a clone");
                        t = Some(T::Resumed(Transcript::resume_from_state(st, params)));
                        squeezed = false;
                        for s in [&mut hs, &mut ad] {
                            s.flush();
                            s.squeezing = true;
                            s.out = s.state[..2].to_vec();
                        }
                    }
                }
                if t.is_some() {
                    for _ in 0..3 {
                        let c = challenge(dr, t.as_mut().unwrap());
                        post(&c, hs.squeeze().unwrap(), ad.squeeze().unwrap());
                    }
                }
            }
        }
    }
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "C16", "a transcript binds its tag", "ragu_pcd Transcript::{new,challenge}", tags, bound "tags of listed lengths up to 70 bytes, T=3, RATE=2", atoms 1, weight 1);
    contract!(v, "C16", "transcript operation sequences", "ragu_pcd Transcript::{new,write,challenge,save_state,resume_from_state}, ResumedTranscript", sequences, bound "all sequences of at most four operations, two tags, T=3, RATE=2, all values", atoms 1, weight 2);
}
