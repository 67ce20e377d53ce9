//! mpz-memory-core
use crate::core::bitvec::BitVec;
use std::{
    fmt,
    future::Future,
    marker::PhantomData,
    ops::Range,
    pin::Pin,
    task::{Context, Poll},
};

pub trait MemoryType: Copy + Clone + Send + Sync + 'static {
    type Raw;
}

pub mod binary {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Binary;
    impl super::MemoryType for Binary {
        type Raw = super::BitVec;
    }
    macro_rules! prim {
        ($($n:ident $c:ty),*) => {$(
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n(pub(crate) usize);
            impl super::StaticSize<Binary> for $n {
                const SIZE: usize = <$c>::BITS as usize;
            }
            impl super::ToRaw<Binary> for $n {
                fn to_raw(&self) -> super::Slice {
                    super::Slice::new(self.0, <$c>::BITS as usize)
                }
            }
            impl super::FromRaw<Binary> for $n {
                fn from_raw(s: super::Slice) -> Self {
                    assert_eq!(s.len(), <$c>::BITS as usize);
                    $n(s.ptr)
                }
            }
            impl super::Prim for $n {
                type Value = $c;
                fn put(v: &$c, out: &mut super::BitVec) {
                    for i in 0..<$c>::BITS {
                        out.push(*v >> i & 1 == 1);
                    }
                }
                fn take(bits: &mut dyn Iterator<Item = bool>) -> $c {
                    let mut v: $c = 0;
                    for i in 0..<$c>::BITS {
                        v |= (bits.next().unwrap() as $c) << i;
                    }
                    v
                }
            }
            impl super::Repr<Binary> for $n {
                type Clear = $c;
                fn encode(v: Self::Clear) -> super::BitVec {
                    let mut out = super::BitVec::new();
                    <$n as super::Prim>::put(&v, &mut out);
                    out
                }
                fn decode(bits: super::BitVec) -> Self::Clear {
                    <$n as super::Prim>::take(&mut bits.iter().by_vals())
                }
            }
        )*};
    }
    prim!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128);
}
use binary::Binary;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Slice {
    pub(crate) ptr: usize,
    pub(crate) size: usize,
}
impl Slice {
    pub(crate) fn new(ptr: usize, size: usize) -> Self {
        Slice { ptr, size }
    }
    pub fn from_range_unchecked(r: Range<usize>) -> Self {
        Slice { ptr: r.start, size: r.end - r.start }
    }
    pub fn to_range(&self) -> Range<usize> {
        self.ptr..self.ptr + self.size
    }
    pub fn len(&self) -> usize {
        self.size
    }
    pub fn is_empty(&self) -> bool {
        self.size == 0
    }
    pub fn ptr(&self) -> usize {
        self.ptr
    }
}
impl fmt::Debug for Slice {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Slice({:?})", self.to_range())
    }
}
impl fmt::Display for Slice {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.to_range())
    }
}

pub trait StaticSize<T: MemoryType> {
    const SIZE: usize;
}
pub trait ToRaw<T: MemoryType> {
    fn to_raw(&self) -> Slice;
}
pub trait FromRaw<T: MemoryType>: Sized {
    fn from_raw(s: Slice) -> Self;
}
pub trait Repr<T: MemoryType>: ToRaw<T> + FromRaw<T> {
    type Clear;
    fn encode(v: Self::Clear) -> BitVec;
    fn decode(bits: BitVec) -> Self::Clear;
}
pub trait Prim: StaticSize<Binary> {
    type Value: Copy + Default;
    fn put(v: &Self::Value, out: &mut BitVec);
    fn take(bits: &mut dyn Iterator<Item = bool>) -> Self::Value;
}
impl ToRaw<Binary> for Slice {
    fn to_raw(&self) -> Slice {
        *self
    }
}

macro_rules! plain {
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> Clone for $t { fn clone(&self) -> Self { *self } }
        impl<$($g)*> Copy for $t {}
    };
}

/// A reference to `N` values.
pub struct Array<T, const N: usize> {
    ptr: usize,
    _t: PhantomData<fn() -> T>,
}
plain!(Array<T, N>, [T, const N: usize]);
impl<T, const N: usize> PartialEq for Array<T, N> {
    fn eq(&self, o: &Self) -> bool {
        self.ptr == o.ptr
    }
}
impl<T, const N: usize> Eq for Array<T, N> {}
impl<T, const N: usize> fmt::Debug for Array<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Array<{N}>({})", self.ptr)
    }
}
impl<T: StaticSize<Binary>, const N: usize> StaticSize<Binary> for Array<T, N> {
    const SIZE: usize = T::SIZE * N;
}
impl<T: StaticSize<Binary>, const N: usize> ToRaw<Binary> for Array<T, N> {
    fn to_raw(&self) -> Slice {
        Slice::new(self.ptr, T::SIZE * N)
    }
}
impl<T: StaticSize<Binary>, const N: usize> FromRaw<Binary> for Array<T, N> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.len(), T::SIZE * N, "length of a slice taken as an array");
        Array { ptr: s.ptr, _t: PhantomData }
    }
}
impl<T: Prim, const N: usize> Repr<Binary> for Array<T, N> {
    type Clear = [T::Value; N];
    fn encode(v: Self::Clear) -> BitVec {
        let mut out = BitVec::new();
        v.iter().for_each(|v| T::put(v, &mut out));
        out
    }
    fn decode(bits: BitVec) -> Self::Clear {
        let mut it = bits.iter().by_vals();
        std::array::from_fn(|_| T::take(&mut it))
    }
}
impl<T: StaticSize<Binary>, const N: usize> Array<T, N> {
    pub fn get<const M: usize>(&self, start: usize) -> Option<Array<T, M>> {
        (start + M <= N).then(|| Array { ptr: self.ptr + start * T::SIZE, _t: PhantomData })
    }
}

/// A reference to a number of values.
pub struct Vector<T> {
    ptr: usize,
    len: usize,
    _t: PhantomData<fn() -> T>,
}
plain!(Vector<T>, [T]);
impl<T> PartialEq for Vector<T> {
    fn eq(&self, o: &Self) -> bool {
        self.ptr == o.ptr && self.len == o.len
    }
}
impl<T> Eq for Vector<T> {}
impl<T> fmt::Debug for Vector<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Vector({}, {})", self.ptr, self.len)
    }
}
impl<T: StaticSize<Binary>> ToRaw<Binary> for Vector<T> {
    fn to_raw(&self) -> Slice {
        Slice::new(self.ptr, T::SIZE * self.len)
    }
}
impl<T: StaticSize<Binary>> FromRaw<Binary> for Vector<T> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.len() % T::SIZE, 0, "length of a slice taken as a vector");
        Vector { ptr: s.ptr, len: s.len() / T::SIZE, _t: PhantomData }
    }
}
impl<T: Prim> Repr<Binary> for Vector<T> {
    type Clear = Vec<T::Value>;
    fn encode(v: Self::Clear) -> BitVec {
        let mut out = BitVec::new();
        v.iter().for_each(|v| T::put(v, &mut out));
        out
    }
    fn decode(bits: BitVec) -> Self::Clear {
        let n = bits.len() / T::SIZE;
        let mut it = bits.iter().by_vals();
        (0..n).map(|_| T::take(&mut it)).collect()
    }
}
impl<T: StaticSize<Binary>> Vector<T> {
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn get(&self, r: Range<usize>) -> Option<Self> {
        (r.start <= r.end && r.end <= self.len)
            .then(|| Vector { ptr: self.ptr + r.start * T::SIZE, len: r.end - r.start, _t: PhantomData })
    }
    pub fn truncate(&mut self, n: usize) {
        self.len = self.len.min(n);
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len, "split beyond the end");
        let tail = Vector { ptr: self.ptr + at * T::SIZE, len: self.len - at, _t: PhantomData };
        self.len = at;
        tail
    }
}
impl<T, const N: usize> From<Array<T, N>> for Vector<T> {
    fn from(a: Array<T, N>) -> Self {
        Vector { ptr: a.ptr, len: N, _t: PhantomData }
    }
}
#[derive(Debug, thiserror::Error)]
#[error("length mismatch")]
pub struct LengthError;
impl<T, const N: usize> TryFrom<Vector<T>> for Array<T, N> {
    type Error = LengthError;
    fn try_from(v: Vector<T>) -> Result<Self, LengthError> {
        (v.len == N).then_some(Array { ptr: v.ptr, _t: PhantomData }).ok_or(LengthError)
    }
}

macro_rules! tuples {
    ($($($n:ident)*;)*) => {$(
        impl<$($n: StaticSize<Binary> + FromRaw<Binary>),*> FromRaw<Binary> for ($($n,)*) {
            #[allow(unused_assignments)]
            fn from_raw(s: Slice) -> Self {
                assert_eq!(s.len(), 0 $(+ $n::SIZE)*, "length of a slice taken as a tuple");
                let mut p = s.ptr;
                ($({ let v = $n::from_raw(Slice::new(p, $n::SIZE)); p += $n::SIZE; v },)*)
            }
        }
    )*};
}
tuples!(A B; A B C; A B C D;);

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
#[error("decode error: canceled")]
pub struct DecodeError;

/// A value to be decoded.
pub struct DecodeFuture<T>(crate::common::future::MaybeDone<T>);
impl<T> fmt::Debug for DecodeFuture<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DecodeFuture")
    }
}
impl<T> DecodeFuture<T> {
    pub fn new() -> (Self, DecodeOp<T>) {
        let (s, f) = crate::common::future::new_output();
        (DecodeFuture(f), DecodeOp(s))
    }
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        self.0.try_recv().map_err(|_| DecodeError)
    }
}
pub struct DecodeOp<T>(crate::common::future::Sender<T>);
impl<T> DecodeOp<T> {
    pub fn send(self, v: T) {
        self.0.send(v)
    }
}
impl<T> Future for DecodeFuture<T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map_err(|_| DecodeError)
    }
}
pub struct DecodeFutureTyped<Raw, T>(DecodeFuture<Raw>, fn(Raw) -> T);
impl<R, T> fmt::Debug for DecodeFutureTyped<R, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DecodeFutureTyped")
    }
}
impl<R, T> DecodeFutureTyped<R, T> {
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        Ok(self.0.try_recv()?.map(self.1))
    }
}
impl<R, T> Future for DecodeFutureTyped<R, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = self.1;
        Pin::new(&mut self.0).poll(cx).map_ok(f)
    }
}

pub trait Memory<T: MemoryType> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn is_alloc_raw(&self, slice: Slice) -> bool;
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, Self::Error>;
    fn is_assigned_raw(&self, slice: Slice) -> bool;
    fn assign_raw(&mut self, slice: Slice, data: T::Raw) -> Result<(), Self::Error>;
    fn is_committed_raw(&self, slice: Slice) -> bool;
    fn commit_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn get_raw(&self, slice: Slice) -> Result<Option<T::Raw>, Self::Error>;
    fn decode_raw(&mut self, slice: Slice) -> Result<DecodeFuture<T::Raw>, Self::Error>;
}
pub trait View<T: MemoryType> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn mark_public_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn mark_private_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn mark_blind_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
}
pub trait MemoryExt<T: MemoryType<Raw = BitVec>>: Memory<T> {
    fn is_alloc<R: ToRaw<T>>(&self, r: &R) -> bool {
        self.is_alloc_raw(r.to_raw())
    }
    fn alloc<R: FromRaw<T> + StaticSize<T>>(&mut self) -> Result<R, Self::Error> {
        self.alloc_raw(R::SIZE).map(R::from_raw)
    }
    fn alloc_vec<R: StaticSize<T>>(&mut self, n: usize) -> Result<Vector<R>, Self::Error> {
        let s = self.alloc_raw(R::SIZE * n)?;
        Ok(Vector { ptr: s.ptr, len: n, _t: PhantomData })
    }
    fn is_assigned<R: ToRaw<T>>(&self, r: R) -> bool {
        self.is_assigned_raw(r.to_raw())
    }
    fn assign<R: Repr<T>>(&mut self, r: R, v: R::Clear) -> Result<(), Self::Error> {
        self.assign_raw(r.to_raw(), R::encode(v))
    }
    fn is_committed<R: ToRaw<T>>(&self, r: R) -> bool {
        self.is_committed_raw(r.to_raw())
    }
    fn commit<R: ToRaw<T>>(&mut self, r: R) -> Result<(), Self::Error> {
        self.commit_raw(r.to_raw())
    }
    fn get<R: Repr<T>>(&self, r: R) -> Result<Option<R::Clear>, Self::Error> {
        Ok(self.get_raw(r.to_raw())?.map(R::decode))
    }
    fn decode<R: Repr<T>>(&mut self, r: R) -> Result<DecodeFutureTyped<BitVec, R::Clear>, Self::Error> {
        Ok(DecodeFutureTyped(self.decode_raw(r.to_raw())?, R::decode))
    }
}
impl<T: MemoryType<Raw = BitVec>, M: Memory<T> + ?Sized> MemoryExt<T> for M {}
pub trait ViewExt<T: MemoryType>: View<T> {
    fn mark_public<R: ToRaw<T>>(&mut self, r: R) -> Result<(), Self::Error> {
        self.mark_public_raw(r.to_raw())
    }
    fn mark_private<R: ToRaw<T>>(&mut self, r: R) -> Result<(), Self::Error> {
        self.mark_private_raw(r.to_raw())
    }
    fn mark_blind<R: ToRaw<T>>(&mut self, r: R) -> Result<(), Self::Error> {
        self.mark_blind_raw(r.to_raw())
    }
}
impl<T: MemoryType, M: View<T> + ?Sized> ViewExt<T> for M {}
