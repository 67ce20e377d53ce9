//! AES-128-GCM over ring.
pub use aead::{self, NewAead};
use aead::{Error, InvalidLength, Payload};
use generic_array::{typenum::{U12, U16}, GenericArray};
use ring::aead::{Aad, LessSafeKey, Nonce, UnboundKey, AES_128_GCM};

pub struct Aes128Gcm(LessSafeKey);
impl NewAead for Aes128Gcm {
    type KeySize = U16;
    fn new(key: &GenericArray<u8, U16>) -> Self {
        Self(LessSafeKey::new(UnboundKey::new(&AES_128_GCM, key).unwrap()))
    }
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        Ok(Self(LessSafeKey::new(UnboundKey::new(&AES_128_GCM, key).map_err(|_| InvalidLength)?)))
    }
}
impl aead::Aead for Aes128Gcm {
    type NonceSize = U12;
    fn encrypt<'msg, 'aad>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut buf = p.msg.to_vec();
        self.0.seal_in_place_append_tag(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(p.aad), &mut buf).map_err(|_| Error)?;
        Ok(buf)
    }
    fn decrypt<'msg, 'aad>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut buf = p.msg.to_vec();
        let n = self.0.open_in_place(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(p.aad), &mut buf).map_err(|_| Error)?.len();
        buf.truncate(n);
        Ok(buf)
    }
}
impl aead::AeadInPlace for Aes128Gcm {
    type NonceSize = U12;
    type TagSize = U16;
    fn encrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<GenericArray<u8, U16>, Error> {
        let out = aead::Aead::encrypt(self, nonce, Payload { msg: buf, aad })?;
        let n = buf.len();
        buf.copy_from_slice(&out[..n]);
        Ok(*GenericArray::from_slice(&out[n..]))
    }
    fn decrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &GenericArray<u8, U16>,
    ) -> Result<(), Error> {
        let msg = [&*buf, tag].concat();
        buf.copy_from_slice(&aead::Aead::decrypt(self, nonce, Payload { msg: &msg, aad })?);
        Ok(())
    }
}
