//! Ideal stand-ins for the mpz crates (and serio), which are missing offline.
//!
//! Interfaces are those of the originals as far as /repo uses them. The
//! cryptographic protocols are replaced by ideal functionalities: the two
//! parties' virtual machines tell each other their committed inputs and both
//! evaluate every circuit; a party's code still sees only what it would see with
//! the real protocols (public values, its own inputs, decoded values).

pub mod channel;
pub mod circuits;
pub mod common;
pub mod core;
pub mod fields;
pub mod garble;
pub mod hash;
pub mod memory;
pub mod ot;
pub mod share;
pub mod vm;
pub mod ideal_vm;
