mod c01;
mod c03;
mod c07;
mod c09;
mod c13;
mod c18;
mod c19;
mod hs_spec;
mod names;
mod pki;
mod sess;
mod x509gen;

fn main() {
    c19::child();
    vpt::main(|| {
        vec![
            c01::c01(),
            c01::c02(),
            c03::c03(),
            c03::c04(),
            c03::c05(),
            c03::c06(),
            c07::c07(),
            c07::c08(),
            c09::c09(),
            c09::c10(),
            c09::c11(),
            c09::c12(),
            c13::c13(),
            c09::c14(),
            c09::c15(),
            c07::c16(),
            c07::c17(),
            c18::c18(),
            c19::c19(),
        ]
    })
}
