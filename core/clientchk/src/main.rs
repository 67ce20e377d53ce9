mod c60;
mod c65;
#[path = "../../../rust/tlscore/src/names.rs"]
#[allow(dead_code)]
mod names;
#[path = "../../../rust/tlscore/src/pki.rs"]
#[allow(dead_code)]
mod pki;
#[path = "../../../rust/tlscore/src/sess.rs"]
#[allow(dead_code)]
mod sess;
mod srv;
mod wire;
#[path = "../../../rust/tlscore/src/x509gen.rs"]
#[allow(dead_code)]
mod x509gen;

fn main() {
    vpt::main(|| vec![c60::c60(), c60::c61(), c60::c62(), c60::c63(), c60::c64(), c65::c65(), c65::c66()])
}
