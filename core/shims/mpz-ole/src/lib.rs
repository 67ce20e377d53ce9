//! Stand-in, see mpzsim.
pub use mpzsim::ot::ole::*;
