//! Stand-in, see mpzsim.
pub use mpzsim::{memory, vm::*};
