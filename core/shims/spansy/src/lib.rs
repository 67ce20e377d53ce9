//! Stand-in for spansy (tlsn-utils): HTTP/1.1 and JSON parsing that keeps the
//! positions of everything. Written from its use in /repo; what a view covers is
//! stated at each type.
use bytes::Bytes;
use rangeset::{iter::IntoRangeIterator, set::RangeSet};
use std::{fmt, ops::Range};

pub mod http;
pub mod json;

/// What a parsed message was read from.
pub trait Store: Clone + AsRef<[u8]> + fmt::Debug {}
impl Store for Bytes {}
impl Store for &[u8] {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(pub String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "parsing error: {}", self.0)
    }
}
impl std::error::Error for ParseError {}

/// Bytes of a source, with their positions.
#[derive(Debug, Clone)]
pub struct View<S = Bytes> {
    src: S,
    indices: RangeSet<usize>,
    data: Vec<u8>,
}

impl<S: Store> View<S> {
    pub(crate) fn new(src: &S, indices: RangeSet<usize>) -> Self {
        let mut data = vec![];
        for r in indices.iter() {
            data.extend_from_slice(&src.as_ref()[r]);
        }
        View { src: src.clone(), indices, data }
    }
    pub(crate) fn range(src: &S, r: Range<usize>) -> Self {
        Self::new(src, if r.is_empty() { RangeSet::default() } else { RangeSet::from(r) })
    }
    pub(crate) fn without(&self, other: &RangeSet<usize>) -> Self {
        let mut s = self.indices.clone();
        s.difference_mut(other);
        Self::new(&self.src, s)
    }
}
impl<S> View<S> {
    pub fn indices(&self) -> &RangeSet<usize> {
        &self.indices
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.data
    }
    pub fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn to_str(&self) -> &str {
        std::str::from_utf8(&self.data).unwrap_or("")
    }
    pub fn as_str(&self) -> &str {
        self.to_str()
    }
}
impl<S> PartialEq<str> for View<S> {
    fn eq(&self, o: &str) -> bool {
        self.data == o.as_bytes()
    }
}

impl<S> IntoRangeIterator<usize> for View<S> {
    type IntoIter = <RangeSet<usize> as IntoRangeIterator<usize>>::IntoIter;
    fn into_range_iter(self) -> Self::IntoIter {
        self.indices.into_range_iter()
    }
}
impl<S> IntoRangeIterator<usize> for &View<S> {
    type IntoIter = <RangeSet<usize> as IntoRangeIterator<usize>>::IntoIter;
    fn into_range_iter(self) -> Self::IntoIter {
        self.indices.clone().into_range_iter()
    }
}

/// A type that is a view, with the field that holds it.
macro_rules! viewed {
    ($($t:ident),* $(,)?) => {$(
        impl<S> $t<S> {
            pub fn view(&self) -> &crate::View<S> {
                &self.view
            }
            pub fn indices(&self) -> &rangeset::set::RangeSet<usize> {
                self.view.indices()
            }
            pub fn as_bytes(&self) -> &[u8] {
                self.view.as_bytes()
            }
            pub fn as_str(&self) -> &str {
                self.view.to_str()
            }
        }
        impl<S> rangeset::iter::IntoRangeIterator<usize> for &$t<S> {
            type IntoIter = <rangeset::set::RangeSet<usize> as rangeset::iter::IntoRangeIterator<usize>>::IntoIter;
            fn into_range_iter(self) -> Self::IntoIter {
                self.view.indices().clone().into_range_iter()
            }
        }
    )*};
}
pub(crate) use viewed;
