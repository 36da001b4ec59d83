mod c03;
mod c04;
mod c05;
mod c06;
mod c21;
use vcd::Model;
pub fn ins<M: Model>(name: &str, n: usize) -> Vec<M> {
    (0..n).map(|i| M::input(&format!("{name}{i}"))).collect()
}
/// Runs with a pool of `k` threads.
pub fn pool<R: Send>(k: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(k).stack_size(16 << 20).build().unwrap().install(f)
}
/// A small number chosen by the (concrete) run.
pub fn small<M: Model>(name: &str, bits: u32) -> usize {
    (0..bits).fold(0, |a, i| a << 1 | M::flip(&format!("{name}{i}")) as usize)
}
pub fn power<M: Model>(x: M, mut e: u128) -> M {
    let (mut b, mut r) = (x, M::ONE);
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
fn main() {
    let mut v = vec![];
    c03::register(&mut v);
    c04::register(&mut v);
    c05::register(&mut v);
    c06::register(&mut v);
    c21::register(&mut v);
    vcd::main(v)
}
