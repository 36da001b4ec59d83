mod c17;
mod shapes;
fn main() {
    let mut v = vec![];
    c17::register(&mut v);
    vcd::main(v)
}
