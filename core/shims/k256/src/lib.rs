pub mod ecdsa {
    pub use ecshim::signature;
    pub type SigningKey = ecshim::SigningKey<ecshim::K256>;
    pub type VerifyingKey = ecshim::VerifyingKey<ecshim::K256>;
    pub type Signature = ecshim::Signature<ecshim::K256>;
    pub use ecshim::{Error, RecoveryId};
}
