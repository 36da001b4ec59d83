mod c16;
mod c18;
mod c19;
mod c20;
use vcd::Model;
/// A deterministic source of program shapes.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Chosen by the concrete run.
    pub fn chosen<M: Model>() -> Rng {
        Rng((0..24).fold(0, |a, i| a << 1 | M::flip(&format!("shape{i}")) as u64))
    }
}
/// A size that the thorough tier enlarges.
pub fn depth(n: usize) -> usize {
    n + (std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")) as usize
}
pub fn ins<M: Model>(name: &str, n: usize) -> Vec<M> {
    (0..n).map(|i| M::input(&format!("{name}{i}"))).collect()
}
fn main() {
    let mut v = vec![];
    c16::register(&mut v);
    c18::register(&mut v);
    c19::register(&mut v);
    c20::register(&mut v);
    vcd::main(v)
}
