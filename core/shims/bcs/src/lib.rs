//! BCS (canonical) serialization: fixed-width little-endian integers, ULEB128
//! lengths and variant numbers, maps sorted by encoded key.
use serde::{ser, Serialize};

#[derive(Debug, thiserror::Error, PartialEq, Clone)]
pub enum Error {
    #[error("sequence length unknown or too large")]
    Length,
    #[error("type not supported: {0}")]
    NotSupported(&'static str),
    #[error("{0}")]
    Custom(String),
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error::Custom(m.to_string())
    }
}

pub fn to_bytes<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>> {
    let mut out = vec![];
    v.serialize(Ser(&mut out))?;
    Ok(out)
}

struct Ser<'a>(&'a mut Vec<u8>);

fn uleb(out: &mut Vec<u8>, mut n: u32) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}
fn len(out: &mut Vec<u8>, n: usize) -> Result<()> {
    if n > i32::MAX as usize {
        return Err(Error::Length);
    }
    uleb(out, n as u32);
    Ok(())
}

macro_rules! ints {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Result<()> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })*};
}

struct MapSer<'a> {
    out: &'a mut Vec<u8>,
    entries: Vec<(Vec<u8>, Vec<u8>)>,
    key: Option<Vec<u8>>,
}

impl<'a> ser::Serializer for Ser<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = MapSer<'a>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    fn serialize_bool(self, v: bool) -> Result<()> {
        self.serialize_u8(v.into())
    }
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);
    fn serialize_f32(self, _: f32) -> Result<()> {
        Err(Error::NotSupported("f32"))
    }
    fn serialize_f64(self, _: f64) -> Result<()> {
        Err(Error::NotSupported("f64"))
    }
    fn serialize_char(self, _: char) -> Result<()> {
        Err(Error::NotSupported("char"))
    }
    fn serialize_str(self, v: &str) -> Result<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<()> {
        len(self.0, v.len())?;
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<()> {
        self.serialize_u8(0)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<()> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<()> {
        uleb(self.0, i);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<()> {
        uleb(self.0, i);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self> {
        len(self.0, n.ok_or(Error::Length)?)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self> {
        uleb(self.0, i);
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer<'a>> {
        Ok(MapSer { out: self.0, entries: vec![], key: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self> {
        uleb(self.0, i);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! elems {
    ($($tr:ident $f:ident),*) => {$(impl ser::$tr for Ser<'_> {
        type Ok = ();
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { v.serialize(Ser(self.0)) }
        fn end(self) -> Result<()> { Ok(()) }
    })*};
}
elems!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => {$(impl ser::$tr for Ser<'_> {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<()> { v.serialize(Ser(self.0)) }
        fn end(self) -> Result<()> { Ok(()) }
    })*};
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for MapSer<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        self.key = Some(to_bytes(k)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let k = self.key.take().ok_or(Error::Custom("value without key".into()))?;
        self.entries.push((k, to_bytes(v)?));
        Ok(())
    }
    fn end(mut self) -> Result<()> {
        self.entries.sort();
        self.entries.dedup_by(|a, b| a.0 == b.0);
        len(self.out, self.entries.len())?;
        for (k, v) in self.entries {
            self.out.extend(k);
            self.out.extend(v);
        }
        Ok(())
    }
}
