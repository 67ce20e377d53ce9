#[path = "/repo/crates/harness/executor/src/bench/io.rs"]
#[allow(dead_code)]
mod meter;
#[path = "/repo/crates/harness/runner/src/network.rs"]
#[allow(dead_code)]
mod network;

mod c24;
mod c25;
mod kernel;

fn main() {
    vpt::main(|| vec![c24::c24(), c25::c25()])
}
