//! Stand-in, see mpzsim.
pub use mpzsim::garble::zk::*;
