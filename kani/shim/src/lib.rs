//! Native stand-in for the `kani` API, so that every Kani harness can also be executed on the real
//! code with concrete values: the values of a verifier counterexample (replay), or searched values.
use std::cell::RefCell;
use std::panic;

pub struct Skip;

pub enum Source {
    /// Values in the order in which the harness asks for them, little-endian bytes.
    Fixed(Vec<Vec<u8>>, usize),
    /// Pseudo-random values, biased towards boundary values.
    Random(u64),
}

thread_local! {
    static SRC: RefCell<Source> = const { RefCell::new(Source::Random(1)) };
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

fn next(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn bytes(n: usize) -> Vec<u8> {
    let v = SRC.with(|s| match &mut *s.borrow_mut() {
        Source::Fixed(vals, pos) => {
            let mut v = vals.get(*pos).cloned().unwrap_or_default();
            *pos += 1;
            v.resize(n, 0);
            v
        }
        Source::Random(st) => {
            let mode = next(st) % 10;
            let mut v = vec![0u8; n];
            match mode {
                0 => {}
                1 => v.fill(0xff),
                2 | 3 => v[0] = (next(st) % 160) as u8,
                4 => {
                    let b = (next(st) as usize) % (8 * n);
                    v[b / 8] = 1 << (b % 8);
                }
                5 => {
                    let b = (next(st) as usize) % (8 * n);
                    for i in 0..b {
                        v[i / 8] |= 1 << (i % 8);
                    }
                }
                6 => {
                    let b = (next(st) as usize) % n;
                    v[b] = next(st) as u8;
                }
                _ => {
                    for x in v.iter_mut() {
                        *x = next(st) as u8;
                    }
                }
            }
            v
        }
    });
    LOG.with(|l| l.borrow_mut().push(v.clone()));
    v
}

pub trait Arbitrary: Sized {
    fn any() -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $(impl Arbitrary for $t {
    fn any() -> Self { <$t>::from_le_bytes(bytes(core::mem::size_of::<$t>()).try_into().unwrap()) }
})* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Arbitrary for bool {
    fn any() -> Self {
        bytes(1)[0] & 1 == 1
    }
}
impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn any() -> Self {
        core::array::from_fn(|_| T::any())
    }
}

pub fn any<T: Arbitrary>() -> T {
    T::any()
}

pub fn assume(c: bool) {
    if !c {
        panic::panic_any(Skip);
    }
}

#[macro_export]
macro_rules! cover {
    ($($t:tt)*) => {};
}

/// Runs a harness once. `Err((message, values))` on a failed assertion.
pub fn run(f: fn(), src: Source) -> Result<bool, (String, Vec<Vec<u8>>)> {
    SRC.with(|s| *s.borrow_mut() = src);
    LOG.with(|l| l.borrow_mut().clear());
    match panic::catch_unwind(f) {
        Ok(()) => Ok(true),
        Err(e) if e.is::<Skip>() => Ok(false),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err((m, LOG.with(|l| l.borrow().clone())))
        }
    }
}

/// `search SEED N [HARNESS...]` or `replay HARNESS hex,hex,...`; one line per harness on stdout.
pub fn main(table: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    panic::set_hook(Box::new(|_| {}));
    let mut bad = false;
    match args.first().map(|s| s.as_str()) {
        Some("replay") => {
            let vals = args.get(2).map(|s| {
                s.split(',').filter(|x| !x.is_empty()).map(unhex).collect::<Vec<_>>()
            });
            for (n, f) in table.iter().filter(|(n, _)| *n == args[1]) {
                match run(*f, Source::Fixed(vals.clone().unwrap_or_default(), 0)) {
                    Ok(ran) => println!("PASS {n} executed={ran}"),
                    Err((m, v)) => {
                        bad = true;
                        println!("FAIL {n} values={} message={m}", hexs(&v));
                    }
                }
            }
        }
        Some("search") => {
            let seed: u64 = args[1].parse().unwrap();
            let n: u64 = args[2].parse().unwrap();
            for (name, f) in table {
                if args.len() > 3 && !args[3..].iter().any(|a| a == name) {
                    continue;
                }
                let mut ran = 0;
                let mut fail = None;
                for i in 0..n {
                    let mut s = seed.wrapping_mul(0x1000_0001).wrapping_add(i.wrapping_mul(0x51_7cc1));
                    let st = next(&mut s);
                    match run(*f, Source::Random(st)) {
                        Ok(true) => ran += 1,
                        Ok(false) => {}
                        Err(e) => {
                            fail = Some(e);
                            break;
                        }
                    }
                }
                match fail {
                    None => println!("PASS {name} executed={ran}"),
                    Some((m, v)) => {
                        bad = true;
                        println!("FAIL {name} values={} message={m}", hexs(&v));
                    }
                }
            }
        }
        _ => {
            for (n, _) in table {
                println!("{n}");
            }
        }
    }
    std::process::exit(if bad { 1 } else { 0 });
}

fn hexs(v: &[Vec<u8>]) -> String {
    v.iter()
        .map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>())
        .collect::<Vec<_>>()
        .join(",")
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Declares harnesses that Kani proves and that can also run natively.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[doc = $d:expr])* fn $name:ident() unwind $u:literal $body:block )*) => {
        $(
            $(#[doc = $d])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() $body
        )*
        pub const TABLE: &[(&str, fn())] = &[ $((stringify!($name), $name)),* ];
    };
}
