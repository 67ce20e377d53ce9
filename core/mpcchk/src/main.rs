mod c70;
mod c72;
#[cfg(tlsn_verif)]
mod c74;
mod c76;
mod c77;
mod c79;
mod certs;
mod claims;
mod net;
mod sess;
mod tls12;
#[path = "../../../rust/tlscore/src/x509gen.rs"]
#[allow(dead_code)]
mod x509gen;

/// Without the hook: whole sessions in its place.
#[cfg(not(tlsn_verif))]
fn sessions(id: &'static str) -> vpt::Check {
    let mut c = if id == "C74" { c70::c70() } else { c72::c72() };
    c.id = id;
    c.laws.truncate(1);
    c
}

fn main() {
    vpt::main(|| {
        vec![
            c70::c70(),
            c70::c71(),
            c72::c72(),
            c72::c73(),
            #[cfg(tlsn_verif)]
            c74::c74(),
            #[cfg(tlsn_verif)]
            c74::c75(),
            #[cfg(not(tlsn_verif))]
            sessions("C74"),
            #[cfg(not(tlsn_verif))]
            sessions("C75"),
            c76::c76(),
            c77::c77(),
            c79::c79(),
            c79::c80(),
            c79::c81(),
            c79::c82(),
            c76::c83(),
        ]
    })
}
