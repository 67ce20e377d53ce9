mod c20;
mod c22;

fn main() {
    vpt::main(|| vec![c20::c20(), c20::c21(), c22::c22(), c22::c23()])
}
