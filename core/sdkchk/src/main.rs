mod c50;
mod c51;
mod c52;
mod c53;
#[path = "../../mpcchk/src/certs.rs"]
mod certs;
mod msg;
#[path = "../../mpcchk/src/net.rs"]
#[allow(dead_code)]
mod net;
#[path = "../../../rust/tlscore/src/x509gen.rs"]
#[allow(dead_code)]
mod x509gen;

fn main() {
    vpt::main(|| vec![c50::c50(), c51::c51(), c52::c52(), c53::c53()])
}
