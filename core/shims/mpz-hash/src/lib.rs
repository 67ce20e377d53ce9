//! Stand-in, see mpzsim.
pub use mpzsim::hash::*;
