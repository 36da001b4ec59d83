mod c13;
mod c14;
mod c15;
mod c16;
fn main() {
    let mut v = vec![];
    c13::register(&mut v);
    c14::register(&mut v);
    c15::register(&mut v);
    c16::register(&mut v);
    vcd::main(v)
}
