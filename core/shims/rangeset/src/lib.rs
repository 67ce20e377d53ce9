//! Sets of integers kept as sorted, disjoint, non-adjacent, non-empty ranges.
//! Stand-in for rangeset 0.4, which is not in this sandbox.

pub mod set {
    use crate::iter::{FromRangeIterator, IntoRangeIterator, Ranges};
    use core::ops::Range;

    #[derive(Clone, PartialEq, Eq, Hash)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize))]
    pub struct RangeSet<T> {
        pub(crate) ranges: Vec<Range<T>>,
    }

    #[cfg(feature = "serde")]
    impl<'de, T: serde::Deserialize<'de> + Copy + Ord> serde::Deserialize<'de> for RangeSet<T> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            #[derive(serde::Deserialize)]
            #[serde(rename = "RangeSet")]
            struct Shadow<T> {
                ranges: Vec<Range<T>>,
            }
            Ok(RangeSet::from(Shadow::deserialize(d)?.ranges))
        }
    }

    impl<T> Default for RangeSet<T> {
        fn default() -> Self {
            RangeSet { ranges: vec![] }
        }
    }

    impl<T: core::fmt::Debug> core::fmt::Debug for RangeSet<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_set().entries(&self.ranges).finish()
        }
    }

    pub(crate) fn normal<T: Copy + Ord>(mut v: Vec<Range<T>>) -> Vec<Range<T>> {
        v.retain(|r| r.start < r.end);
        v.sort_by(|a, b| a.start.cmp(&b.start));
        let mut out: Vec<Range<T>> = Vec::with_capacity(v.len());
        for r in v {
            match out.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => out.push(r),
            }
        }
        out
    }

    impl<T: PartialEq> PartialEq<Range<T>> for RangeSet<T> {
        fn eq(&self, r: &Range<T>) -> bool {
            self.ranges.len() == 1 && self.ranges[0] == *r
        }
    }
    impl<T: PartialEq> PartialEq<Range<T>> for &RangeSet<T> {
        fn eq(&self, r: &Range<T>) -> bool {
            self.ranges.len() == 1 && self.ranges[0] == *r
        }
    }
    impl<T: Copy + Ord> From<Vec<Range<T>>> for RangeSet<T> {
        fn from(v: Vec<Range<T>>) -> Self {
            RangeSet { ranges: normal(v) }
        }
    }
    impl<T: Copy + Ord> From<&[Range<T>]> for RangeSet<T> {
        fn from(v: &[Range<T>]) -> Self {
            RangeSet { ranges: normal(v.to_vec()) }
        }
    }
    impl<T: Copy + Ord, const N: usize> From<[Range<T>; N]> for RangeSet<T> {
        fn from(v: [Range<T>; N]) -> Self {
            RangeSet { ranges: normal(v.to_vec()) }
        }
    }
    impl<T: Copy + Ord> From<Range<T>> for RangeSet<T> {
        fn from(v: Range<T>) -> Self {
            RangeSet { ranges: normal(vec![v]) }
        }
    }
    impl<T> From<RangeSet<T>> for Vec<Range<T>> {
        fn from(s: RangeSet<T>) -> Self {
            s.ranges
        }
    }
    impl<T: Copy + Ord> FromIterator<Range<T>> for RangeSet<T> {
        fn from_iter<I: IntoIterator<Item = Range<T>>>(it: I) -> Self {
            RangeSet { ranges: normal(it.into_iter().collect()) }
        }
    }
    impl<T: Copy + Ord> FromRangeIterator<T> for RangeSet<T> {
        fn from_range_iter<I: IntoRangeIterator<T>>(it: I) -> Self {
            RangeSet { ranges: normal(it.into_range_iter().collect()) }
        }
    }
    impl<T: Copy + Ord> Extend<Range<T>> for RangeSet<T> {
        fn extend<I: IntoIterator<Item = Range<T>>>(&mut self, it: I) {
            let mut v = core::mem::take(&mut self.ranges);
            v.extend(it);
            self.ranges = normal(v);
        }
    }
    impl<T: Copy + Ord> IntoIterator for RangeSet<T> {
        type Item = Range<T>;
        type IntoIter = Ranges<T>;
        fn into_iter(self) -> Ranges<T> {
            Ranges::new(self.ranges)
        }
    }
    impl<T: Copy + Ord> IntoIterator for &RangeSet<T> {
        type Item = Range<T>;
        type IntoIter = Ranges<T>;
        fn into_iter(self) -> Ranges<T> {
            self.iter()
        }
    }

    impl<T> RangeSet<T> {
        pub fn is_empty(&self) -> bool {
            self.ranges.is_empty()
        }
        pub fn len_ranges(&self) -> usize {
            self.ranges.len()
        }
        pub fn as_slice(&self) -> &[Range<T>] {
            &self.ranges
        }
        pub fn into_inner(self) -> Vec<Range<T>> {
            self.ranges
        }
        pub fn clear(&mut self) {
            self.ranges.clear()
        }
    }

    impl<T: Copy + Ord> RangeSet<T> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn iter(&self) -> Ranges<T> {
            Ranges::new(self.ranges.clone())
        }
        pub fn min(&self) -> Option<T> {
            self.ranges.first().map(|r| r.start)
        }
        pub fn start(&self) -> Option<T> {
            self.ranges.first().map(|r| r.start)
        }
        pub fn end(&self) -> Option<T> {
            self.ranges.last().map(|r| r.end)
        }
        pub fn contains(&self, v: &T) -> bool {
            self.ranges.iter().any(|r| r.contains(v))
        }
        pub fn union_mut(&mut self, other: impl IntoRangeIterator<T>) {
            self.extend(other.into_range_iter().collect::<Vec<_>>())
        }
        pub fn difference_mut(&mut self, other: impl IntoRangeIterator<T>) {
            self.ranges = crate::ops::minus(&self.ranges, &normal(other.into_range_iter().collect()));
        }
        pub fn intersection_mut(&mut self, other: impl IntoRangeIterator<T>) {
            self.ranges = crate::ops::both(&self.ranges, &normal(other.into_range_iter().collect()));
        }
    }

    impl<T: Copy + Ord + crate::Int> RangeSet<T> {
        pub fn len(&self) -> usize {
            self.ranges.iter().map(|r| T::dist(r.start, r.end)).sum()
        }
        pub fn max(&self) -> Option<T> {
            self.ranges.last().map(|r| T::back(r.end))
        }
        pub fn iter_values(&self) -> impl Iterator<Item = T> + '_
        where
            Range<T>: Iterator<Item = T>,
        {
            self.ranges.iter().flat_map(|r| r.clone())
        }
        pub fn shift_left(&mut self, by: &T) {
            for r in &mut self.ranges {
                *r = T::sub(r.start, *by)..T::sub(r.end, *by);
            }
        }
        pub fn shift_right(&mut self, by: &T) {
            for r in &mut self.ranges {
                *r = T::add(r.start, *by)..T::add(r.end, *by);
            }
        }
    }
}

pub trait Int: Sized {
    fn dist(a: Self, b: Self) -> usize;
    fn back(a: Self) -> Self;
    fn add(a: Self, b: Self) -> Self;
    fn sub(a: Self, b: Self) -> Self;
}
macro_rules! int {
    ($($t:ty)*) => {$(impl Int for $t {
        fn dist(a: Self, b: Self) -> usize { (b - a) as usize }
        fn back(a: Self) -> Self { a - 1 }
        fn add(a: Self, b: Self) -> Self { a + b }
        fn sub(a: Self, b: Self) -> Self { a - b }
    })*};
}
int!(u8 u16 u32 u64 usize i32 i64 isize);

pub mod iter {
    use crate::set::RangeSet;
    use core::ops::Range;

    /// Ranges in order.
    #[derive(Clone, Debug)]
    pub struct Ranges<T>(std::vec::IntoIter<Range<T>>);
    impl<T> Ranges<T> {
        pub(crate) fn new(v: Vec<Range<T>>) -> Self {
            Ranges(v.into_iter())
        }
    }
    impl<T> Iterator for Ranges<T> {
        type Item = Range<T>;
        fn next(&mut self) -> Option<Range<T>> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<T> DoubleEndedIterator for Ranges<T> {
        fn next_back(&mut self) -> Option<Range<T>> {
            self.0.next_back()
        }
    }
    impl<T> ExactSizeIterator for Ranges<T> {}

    pub trait RangeIterator<T>: Iterator<Item = Range<T>> {
        fn into_set(self) -> RangeSet<T>
        where
            Self: Sized,
            T: Copy + Ord,
        {
            RangeSet::from_iter(self)
        }
        fn into_range_set(self) -> RangeSet<T>
        where
            Self: Sized,
            T: Copy + Ord,
        {
            RangeSet::from_iter(self)
        }
    }
    impl<T, I: Iterator<Item = Range<T>>> RangeIterator<T> for I {}

    pub trait IntoRangeIterator<T> {
        type IntoIter: Iterator<Item = Range<T>>;
        fn into_range_iter(self) -> Self::IntoIter;
    }
    pub trait FromRangeIterator<T>: Sized {
        fn from_range_iter<I: IntoRangeIterator<T>>(it: I) -> Self;
    }

    impl<T> IntoRangeIterator<T> for Ranges<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            self
        }
    }
    impl<T> IntoRangeIterator<T> for Range<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(vec![self])
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &Range<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(vec![self.clone()])
        }
    }
    impl<T> IntoRangeIterator<T> for RangeSet<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.ranges)
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &RangeSet<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.ranges.clone())
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &mut RangeSet<T> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.ranges.clone())
        }
    }
    impl<T> IntoRangeIterator<T> for Vec<Range<T>> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self)
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &Vec<Range<T>> {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.clone())
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &[Range<T>] {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.to_vec())
        }
    }
    impl<T, const N: usize> IntoRangeIterator<T> for [Range<T>; N] {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(Vec::from(self))
        }
    }
    impl<T: Clone, const N: usize> IntoRangeIterator<T> for &[Range<T>; N] {
        type IntoIter = Ranges<T>;
        fn into_range_iter(self) -> Ranges<T> {
            Ranges::new(self.to_vec())
        }
    }
}

pub mod ops {
    use crate::{
        iter::{IntoRangeIterator, Ranges},
        set::{normal, RangeSet},
    };
    use core::ops::Range;

    pub(crate) fn minus<T: Copy + Ord>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
        let mut out = vec![];
        for r in a {
            let mut at = r.start;
            for s in b {
                if s.end <= at || s.start >= r.end {
                    continue;
                }
                if s.start > at {
                    out.push(at..s.start);
                }
                at = s.end;
                if at >= r.end {
                    break;
                }
            }
            if at < r.end {
                out.push(at..r.end);
            }
        }
        out
    }

    pub(crate) fn both<T: Copy + Ord>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
        let mut out = vec![];
        for r in a {
            for s in b {
                let x = r.start.max(s.start)..r.end.min(s.end);
                if x.start < x.end {
                    out.push(x);
                }
            }
        }
        normal(out)
    }

    /// Set operations.
    pub trait Set<T: Copy + Ord> {
        #[doc(hidden)]
        fn parts(&self) -> Vec<Range<T>>;

        fn union(&self, other: impl IntoRangeIterator<T>) -> Ranges<T> {
            let mut v = self.parts();
            v.extend(other.into_range_iter());
            Ranges::new(normal(v))
        }
        fn difference(&self, other: impl IntoRangeIterator<T>) -> Ranges<T> {
            Ranges::new(minus(&self.parts(), &normal(other.into_range_iter().collect())))
        }
        fn intersection(&self, other: impl IntoRangeIterator<T>) -> Ranges<T> {
            Ranges::new(both(&self.parts(), &normal(other.into_range_iter().collect())))
        }
        fn symmetric_difference(&self, other: impl IntoRangeIterator<T>) -> Ranges<T> {
            let a = self.parts();
            let b = normal(other.into_range_iter().collect());
            let mut v = minus(&a, &b);
            v.extend(minus(&b, &a));
            Ranges::new(normal(v))
        }
        fn is_subset(&self, other: impl IntoRangeIterator<T>) -> bool {
            minus(&self.parts(), &normal(other.into_range_iter().collect())).is_empty()
        }
        fn is_superset(&self, other: impl IntoRangeIterator<T>) -> bool {
            minus(&normal(other.into_range_iter().collect()), &self.parts()).is_empty()
        }
        fn is_disjoint(&self, other: impl IntoRangeIterator<T>) -> bool {
            both(&self.parts(), &normal(other.into_range_iter().collect())).is_empty()
        }
    }
    impl<T: Copy + Ord> Set<T> for Range<T> {
        fn parts(&self) -> Vec<Range<T>> {
            normal(vec![self.clone()])
        }
    }
    impl<T: Copy + Ord> Set<T> for RangeSet<T> {
        fn parts(&self) -> Vec<Range<T>> {
            self.ranges.clone()
        }
    }

    /// Covering a set by subsets of it, greedily: at each step the subset that
    /// adds most (the first of these) is taken.
    pub trait Cover<T: Copy + Ord + crate::Int>: Set<T> {
        fn cover_by<'a, I: 'a>(&self, sets: impl IntoIterator<Item = &'a I>, f: impl Fn(&I) -> &RangeSet<T>) -> (Vec<&'a I>, RangeSet<T>) {
            let mut left = RangeSet { ranges: self.parts() };
            let mut cands: Vec<&'a I> = sets.into_iter().filter(|s| f(s).is_subset(&left)).collect();
            let mut taken = vec![];
            while !left.is_empty() {
                let mut best = None;
                let mut gain = 0;
                for (i, c) in cands.iter().enumerate() {
                    let g = RangeSet::from(both(&f(c).ranges, &left.ranges)).len();
                    if g > gain {
                        gain = g;
                        best = Some(i);
                    }
                }
                let Some(i) = best else { break };
                let c = cands.remove(i);
                left.difference_mut(f(c));
                taken.push(c);
            }
            (taken, left)
        }
        fn cover<'a>(&self, sets: impl IntoIterator<Item = &'a RangeSet<T>>) -> (Vec<&'a RangeSet<T>>, RangeSet<T>)
        where
            T: 'a,
        {
            self.cover_by(sets, |s| s)
        }
    }
    impl<T: Copy + Ord + crate::Int> Cover<T> for RangeSet<T> {}

    /// The parts of a sequence that a set names.
    pub trait Index<R> {
        type Part: ?Sized;
        fn index<'a>(&'a self, set: R) -> std::vec::IntoIter<&'a Self::Part>;
    }
    impl<V, R: IntoRangeIterator<usize>> Index<R> for [V] {
        type Part = [V];
        fn index<'a>(&'a self, set: R) -> std::vec::IntoIter<&'a [V]> {
            set.into_range_iter().map(|r| &self[r]).collect::<Vec<_>>().into_iter()
        }
    }
    impl<V, R: IntoRangeIterator<usize>> Index<R> for Vec<V> {
        type Part = [V];
        fn index<'a>(&'a self, set: R) -> std::vec::IntoIter<&'a [V]> {
            set.into_range_iter().map(|r| &self[r]).collect::<Vec<_>>().into_iter()
        }
    }
    impl<R: IntoRangeIterator<usize>> Index<R> for str {
        type Part = str;
        fn index<'a>(&'a self, set: R) -> std::vec::IntoIter<&'a str> {
            set.into_range_iter().map(|r| &self[r]).collect::<Vec<_>>().into_iter()
        }
    }
}

pub mod prelude {
    pub use crate::{
        iter::{FromRangeIterator, IntoRangeIterator, RangeIterator},
        ops::{Cover, Index, Set},
        set::RangeSet,
    };
}
