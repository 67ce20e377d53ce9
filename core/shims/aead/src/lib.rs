//! The traits of `aead` that the fixtures of tlsn-core use.
pub use generic_array;
use generic_array::{ArrayLength, GenericArray};

#[derive(Debug, Clone, Copy)]
pub struct Error;
#[derive(Debug, Clone, Copy)]
pub struct InvalidLength;

pub struct Payload<'msg, 'aad> {
    pub msg: &'msg [u8],
    pub aad: &'aad [u8],
}

pub trait NewAead: Sized {
    type KeySize: ArrayLength<u8>;
    fn new(key: &GenericArray<u8, Self::KeySize>) -> Self;
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
}
pub trait Aead {
    type NonceSize: ArrayLength<u8>;
    fn encrypt<'msg, 'aad>(&self, nonce: &GenericArray<u8, Self::NonceSize>, p: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>, Error>;
    fn decrypt<'msg, 'aad>(&self, nonce: &GenericArray<u8, Self::NonceSize>, p: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>, Error>;
}
pub trait AeadInPlace {
    type NonceSize: ArrayLength<u8>;
    type TagSize: ArrayLength<u8>;
    fn encrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, Self::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<GenericArray<u8, Self::TagSize>, Error>;
    fn decrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, Self::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &GenericArray<u8, Self::TagSize>,
    ) -> Result<(), Error>;
}
pub trait AeadMutInPlace {
    type NonceSize: ArrayLength<u8>;
    type TagSize: ArrayLength<u8>;
    fn encrypt_in_place_detached(
        &mut self,
        nonce: &GenericArray<u8, Self::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<GenericArray<u8, Self::TagSize>, Error>;
    fn decrypt_in_place_detached(
        &mut self,
        nonce: &GenericArray<u8, Self::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &GenericArray<u8, Self::TagSize>,
    ) -> Result<(), Error>;
}
impl<A: AeadInPlace> AeadMutInPlace for A {
    type NonceSize = A::NonceSize;
    type TagSize = A::TagSize;
    fn encrypt_in_place_detached(
        &mut self,
        nonce: &GenericArray<u8, A::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<GenericArray<u8, A::TagSize>, Error> {
        AeadInPlace::encrypt_in_place_detached(self, nonce, aad, buf)
    }
    fn decrypt_in_place_detached(
        &mut self,
        nonce: &GenericArray<u8, A::NonceSize>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &GenericArray<u8, A::TagSize>,
    ) -> Result<(), Error> {
        AeadInPlace::decrypt_in_place_detached(self, nonce, aad, buf, tag)
    }
}
