//! Stand-in, see mpzsim.
pub use mpzsim::ideal_vm::*;
