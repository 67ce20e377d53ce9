//! Stand-in for rustls 0.23: rustls 0.22.
pub use real::*;
