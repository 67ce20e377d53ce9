//! Stand-in: a newer derive_builder.
pub use derive_builder_new::*;
