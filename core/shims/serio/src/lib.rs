//! Stand-in, see mpzsim.
pub use mpzsim::channel::*;
pub mod sink {
    pub use mpzsim::channel::SinkExt;
}
pub mod stream {
    pub use mpzsim::channel::IoStreamExt;
}
