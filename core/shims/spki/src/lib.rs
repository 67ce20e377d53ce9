//! SubjectPublicKeyInfo over `der`.
pub use der;
use der::{asn1::{AnyRef, BitStringRef, ObjectIdentifier}, Decode, DecodeValue, FixedTag, Header, Length, Reader, Tag};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AlgorithmIdentifier<P> {
    pub oid: ObjectIdentifier,
    pub parameters: Option<P>,
}
pub type AlgorithmIdentifierRef<'a> = AlgorithmIdentifier<AnyRef<'a>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SubjectPublicKeyInfo<P, K> {
    pub algorithm: AlgorithmIdentifier<P>,
    pub subject_public_key: K,
}
pub type SubjectPublicKeyInfoRef<'a> = SubjectPublicKeyInfo<AnyRef<'a>, BitStringRef<'a>>;

impl FixedTag for AlgorithmIdentifierRef<'_> {
    const TAG: Tag = Tag::Sequence;
}
impl<'a> DecodeValue<'a> for AlgorithmIdentifierRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(reader: &mut R, _header: Header) -> der::Result<Self> {
        let oid = ObjectIdentifier::decode(reader)?;
        let parameters = if reader.remaining_len() == Length::ZERO { None } else { Some(AnyRef::decode(reader)?) };
        Ok(Self { oid, parameters })
    }
}
impl FixedTag for SubjectPublicKeyInfoRef<'_> {
    const TAG: Tag = Tag::Sequence;
}
impl<'a> DecodeValue<'a> for SubjectPublicKeyInfoRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(reader: &mut R, _header: Header) -> der::Result<Self> {
        Ok(Self { algorithm: AlgorithmIdentifierRef::decode(reader)?, subject_public_key: BitStringRef::decode(reader)? })
    }
}
