//! `crates/mpc-tls/src/client`, compiled unchanged, over a stand-in for
//! `MpcTlsLeader` that does the cryptography of TLS 1.2 in the clear and
//! records what the client asks of it.

#[allow(missing_docs, dead_code, unused_imports)]
#[path = "../../../mirror/crates/mpc-tls/src/client/mod.rs"]
pub mod client;
pub mod crypt;
pub mod leader;

pub use leader::MpcTlsLeader;

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct MpcTlsError(pub String);
