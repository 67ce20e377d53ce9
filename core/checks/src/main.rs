mod attest;
mod config;
mod conn;
#[path = "../../../rust/tlscore/src/names.rs"]
#[allow(dead_code)]
mod names;
#[path = "../../../rust/tlscore/src/pki.rs"]
#[allow(dead_code)]
mod pki;
mod proof;
#[path = "../../../rust/tlscore/src/sess.rs"]
#[allow(dead_code)]
mod sess;
mod tls;
mod transcript;
mod util;
#[path = "../../../rust/tlscore/src/x509gen.rs"]
#[allow(dead_code)]
mod x509gen;

fn main() {
    vpt::main(|| vec![transcript::c30(), transcript::c31(), transcript::c32(), proof::c33(), proof::c34(), proof::c35(), transcript::c36(), tls::c37(), conn::c38(), config::c39(), attest::c40(), attest::c41(), attest::c42(), attest::c43(), attest::c44()])
}
