//! Stand-in, see mpzsim.
pub mod protocol {
    pub use mpzsim::garble::semihonest;
}
