//! Finite point types, the range-set model of their subsets, and interval recipes.
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

/// A finite point type, in order isomorphism with the indices `0..=LAST`.
pub trait Fin: Finite + Ord + Clone + Debug + Hash + Serialize + for<'a> Deserialize<'a> + 'static {
    const LAST: u128;
    fn ix(&self) -> u128;
    fn at(ix: u128) -> Self;
}

macro_rules! fin_uint { ($($t:ident),*) => {$(
    impl Fin for $t {
        const LAST: u128 = $t::MAX as u128;
        fn ix(&self) -> u128 { *self as u128 }
        fn at(ix: u128) -> Self { ix as $t }
    })*};
}
macro_rules! fin_int { ($($t:ident $u:ident),*) => {$(
    impl Fin for $t {
        const LAST: u128 = $u::MAX as u128;
        fn ix(&self) -> u128 { (*self as $u).wrapping_add($u::MAX / 2 + 1) as u128 }
        fn at(ix: u128) -> Self { (ix as $u).wrapping_sub($u::MAX / 2 + 1) as $t }
    })*};
}
fin_uint!(u8, u16, u32, u64, u128, usize);
fin_int!(i8 u8, i16 u16, i32 u32, i64 u64, i128 u128, isize usize);

/// A point type with exactly `N` values.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Small<const N: u8>(pub u8);
impl<const N: u8> Finite for Small<N> {
    const MINIMUM: Self = Small(0);
    const MAXIMUM: Self = Small(N - 1);
    fn pred(&self) -> Option<Self> { if self.0 == 0 { None } else { Some(Small(self.0 - 1)) } }
    fn succ(&self) -> Option<Self> { if self.0 == N - 1 { None } else { Some(Small(self.0 + 1)) } }
}
impl<const N: u8> Fin for Small<N> {
    const LAST: u128 = N as u128 - 1;
    fn ix(&self) -> u128 { self.0 as u128 }
    fn at(ix: u128) -> Self { Small(ix as u8) }
}

/// `u8` in reversed order: successor is numerically smaller.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Rev(pub u8);
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rev { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Finite for Rev {
    const MINIMUM: Self = Rev(255);
    const MAXIMUM: Self = Rev(0);
    fn pred(&self) -> Option<Self> { self.0.checked_add(1).map(Rev) }
    fn succ(&self) -> Option<Self> { self.0.checked_sub(1).map(Rev) }
}
impl Fin for Rev {
    const LAST: u128 = 255;
    fn ix(&self) -> u128 { 255 - self.0 as u128 }
    fn at(ix: u128) -> Self { Rev(255 - ix as u8) }
}

impl Finite for HeapP {
    const MINIMUM: Self = HeapP { hi: 0, lo: None };
    const MAXIMUM: Self = HeapP { hi: 9, lo: Some(9) };
    fn pred(&self) -> Option<Self> { if self.ix() == 0 { None } else { Some(HeapP::at(self.ix() - 1)) } }
    fn succ(&self) -> Option<Self> { if self.ix() == Self::LAST { None } else { Some(HeapP::at(self.ix() + 1)) } }
}
/// A compound point type ordered lexicographically (10 major steps of 11 minor ones).
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct HeapP { hi: u8, lo: Option<u8> }
impl Clone for HeapP { fn clone(&self) -> Self { HeapP { hi: self.hi, lo: self.lo } } }
impl Fin for HeapP {
    const LAST: u128 = 109;
    fn ix(&self) -> u128 { self.hi as u128 * 11 + self.lo.map_or(0, |l| l as u128 + 1) }
    fn at(ix: u128) -> Self {
        let l = (ix % 11) as u8;
        HeapP { hi: (ix / 11) as u8, lo: if l == 0 { None } else { Some(l - 1) } }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty { U8, I8, U16, I16, U32, I32, U64, I64, U128, I128, Usize, Isize, S1, S2, S3, S7, S10, Rev, Heap }

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {{
        use $crate::fin::{Ty, Small, Rev, HeapP};
        match $ty {
            Ty::U8 => $f::<u8>($($a),*), Ty::I8 => $f::<i8>($($a),*),
            Ty::U16 => $f::<u16>($($a),*), Ty::I16 => $f::<i16>($($a),*),
            Ty::U32 => $f::<u32>($($a),*), Ty::I32 => $f::<i32>($($a),*),
            Ty::U64 => $f::<u64>($($a),*), Ty::I64 => $f::<i64>($($a),*),
            Ty::U128 => $f::<u128>($($a),*), Ty::I128 => $f::<i128>($($a),*),
            Ty::Usize => $f::<usize>($($a),*), Ty::Isize => $f::<isize>($($a),*),
            Ty::S1 => $f::<Small<1>>($($a),*), Ty::S2 => $f::<Small<2>>($($a),*),
            Ty::S3 => $f::<Small<3>>($($a),*), Ty::S7 => $f::<Small<7>>($($a),*),
            Ty::S10 => $f::<Small<10>>($($a),*),
            Ty::Rev => $f::<Rev>($($a),*), Ty::Heap => $f::<HeapP>($($a),*),
        }
    }};
}

/// How raw coordinates map to points: the type, how far apart coordinates lie, and around which
/// anchors of the type.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg { pub ty: Ty, pub spread: u16, pub classes: u8 }

pub type Coord = u16;

impl Cfg {
    /// Maps a raw coordinate to the index of a point of `T`.
    pub fn ix<T: Fin>(&self, c: Coord) -> u128 {
        let off = u128::from(c & 0x1fff) % u128::from(self.spread.max(1));
        let k = (c >> 13) as usize;
        let class = match self.classes {
            0 => 0,            // near the minimum
            1 => 1,            // near the maximum
            2 => 2,            // straddling the middle (zero, for signed types)
            3 => k % 2,        // both extremes
            4 => k % 4,        // everywhere
            5 => 5,            // around powers of two
            _ => 6,            // scattered over the whole type
        };
        let mid = T::LAST / 2 - (T::LAST / 2).min(2);
        let v = match class {
            0 => off,
            1 => return T::LAST - if T::LAST == u128::MAX { off } else { off % (T::LAST + 1) },
            2 => mid.checked_add(off).unwrap_or(off),
            5 => {
                let bits = u128::BITS - T::LAST.leading_zeros();
                let anchor = 1u128 << ((k as u32 + 1) * bits / 8).min(127);
                anchor.wrapping_sub(2).wrapping_add(off)
            }
            6 => (off + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835).rotate_left(k as u32 * 13),
            _ => (T::LAST / 3).checked_add(off).unwrap_or(off),
        };
        if T::LAST == u128::MAX { v } else { v % (T::LAST + 1) }
    }
    pub fn pt<T: Fin>(&self, c: Coord) -> T { T::at(self.ix::<T>(c)) }
}

pub fn cfg() -> BoxedStrategy<Cfg> {
    let ty = prop_oneof![
        6 => Just(Ty::U8), 4 => Just(Ty::I8), 1 => Just(Ty::U16), 1 => Just(Ty::I16),
        1 => Just(Ty::U32), 3 => Just(Ty::I32), 1 => Just(Ty::U64), 1 => Just(Ty::I64),
        1 => Just(Ty::U128), 1 => Just(Ty::I128), 1 => Just(Ty::Usize), 1 => Just(Ty::Isize),
        1 => Just(Ty::S1), 1 => Just(Ty::S2), 1 => Just(Ty::S3), 3 => Just(Ty::S7),
        1 => Just(Ty::Rev), 1 => Just(Ty::Heap)
    ];
    let spread = prop_oneof![2 => Just(4u16), 4 => Just(8), 4 => Just(14), 2 => Just(40), 1 => Just(120), 1 => Just(256)];
    let classes = prop_oneof![4 => Just(0u8), 2 => Just(1), 2 => Just(2), 2 => Just(3), 2 => Just(4), 1 => Just(5), 1 => Just(6)];
    (ty, spread, classes).prop_map(|(ty, spread, classes)| Cfg { ty, spread, classes }).boxed()
}

pub fn coord() -> BoxedStrategy<Coord> {
    // Low offsets shrink well; the top three bits pick the anchor.
    (0u16..8, 0u16..0x2000).prop_map(|(k, o)| (k << 13) | o).boxed()
}

////////////////////////////////////////////////////////////////////////////////
// The model: sorted disjoint non-adjacent closed index ranges
////////////////////////////////////////////////////////////////////////////////
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Set(pub Vec<(u128, u128)>);

impl Set {
    pub fn empty() -> Self { Set(vec![]) }
    pub fn full(last: u128) -> Self { Set(vec![(0, last)]) }
    pub fn range(r: Option<(u128, u128)>) -> Self { Set(r.into_iter().collect()) }
    pub fn from_ranges(mut v: Vec<(u128, u128)>) -> Self {
        v.sort();
        let mut out: Vec<(u128, u128)> = vec![];
        for (l, h) in v {
            assert!(l <= h, "model range");
            if let Some(p) = out.last_mut() {
                if p.1.checked_add(1).map_or(true, |n| l <= n) { p.1 = p.1.max(h); continue; }
            }
            out.push((l, h));
        }
        Set(out)
    }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn has(&self, x: u128) -> bool { let i = self.0.partition_point(|r| r.1 < x); self.0.get(i).is_some_and(|r| r.0 <= x) }
    pub fn union(&self, o: &Set) -> Set { Set::from_ranges(self.0.iter().chain(&o.0).copied().collect()) }
    pub fn complement(&self, last: u128) -> Set {
        let mut out = vec![];
        let mut next = Some(0u128);
        for &(l, h) in &self.0 {
            let n = next.expect("model complement");
            if n < l { out.push((n, l - 1)); }
            next = if h == last { None } else { Some(h + 1) };
        }
        if let Some(n) = next { out.push((n, last)); }
        Set(out)
    }
    pub fn intersect(&self, o: &Set) -> Set {
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let ((a, b), (c, d)) = (self.0[i], o.0[j]);
            let (l, h) = (a.max(c), b.min(d));
            if l <= h { out.push((l, h)); }
            if b < d { i += 1 } else { j += 1 }
        }
        Set::from_ranges(out)
    }
    pub fn minus(&self, o: &Set, last: u128) -> Set { self.intersect(&o.complement(last)) }
    pub fn lo(&self) -> Option<u128> { self.0.first().map(|r| r.0) }
    pub fn hi(&self) -> Option<u128> { self.0.last().map(|r| r.1) }
    pub fn hull(&self) -> Option<(u128, u128)> { Some((self.lo()?, self.hi()?)) }
    /// Number of points, capped.
    pub fn count_capped(&self, cap: u128) -> u128 {
        let mut n = 0u128;
        for &(l, h) in &self.0 { n = n.saturating_add((h - l).saturating_add(1)); if n > cap { return cap + 1; } }
        n
    }
    pub fn points(&self) -> impl Iterator<Item = u128> + '_ { self.0.iter().flat_map(|&(l, h)| l..=h) }
}

/// Indices to probe membership at: everything for small types, otherwise every range end and
/// its neighbours, the type's extremes and the given extras.
pub fn probes<T: Fin>(sets: &[&Set], extra: &[u128]) -> Vec<u128> {
    if T::LAST <= 255 { return (0..=T::LAST).collect(); }
    let mut v = vec![0, 1, T::LAST / 2, T::LAST / 2 + 1, T::LAST - 1, T::LAST];
    let mut add = |x: u128| {
        for d in 0..=2u128 {
            if let Some(y) = x.checked_add(d) { if y <= T::LAST { v.push(y); } }
            if let Some(y) = x.checked_sub(d) { v.push(y); }
        }
    };
    for s in sets { for &(l, h) in &s.0 { add(l); add(h); add(l + (h - l) / 2); } }
    for &x in extra { add(x); }
    v.sort();
    v.dedup();
    v
}

////////////////////////////////////////////////////////////////////////////////
// Interval recipes
////////////////////////////////////////////////////////////////////////////////
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Bk { In, Ex, Inf }

/// A way of constructing an interval through the public API.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Iv {
    Empty, Default, Full, Point(Coord), FromPoint(Coord),
    Closed(Coord, Coord), Open(Coord, Coord), LeftOpen(Coord, Coord), RightOpen(Coord, Coord),
    LeftClosed(Coord, Coord), RightClosed(Coord, Coord),
    New(Bk, Coord, Bk, Coord),
    From(Coord), To(Coord), UpFrom(Coord), UpTo(Coord),
    Range(Coord, Coord), RangeFrom(Coord), RangeTo(Coord), RangeToIncl(Coord), RangeFull,
    /// Conversion of an un-normalized interval of the given shape (0..=14).
    Raw(u8, Coord, Coord),
    /// A two-ended constructor (0..=5) with its points put in order first.
    Sorted(u8, Coord, Coord),
}

pub fn bk() -> BoxedStrategy<Bk> { prop_oneof![4 => Just(Bk::In), 4 => Just(Bk::Ex), 1 => Just(Bk::Inf)].boxed() }

pub fn iv() -> BoxedStrategy<Iv> {
    let c = coord;
    prop_oneof![
        1 => Just(Iv::Empty), 1 => Just(Iv::Full), 1 => Just(Iv::RangeFull), 1 => Just(Iv::Default),
        4 => c().prop_map(Iv::Point), 1 => c().prop_map(Iv::FromPoint),
        6 => (c(), c()).prop_map(|(a, b)| Iv::Closed(a, b)),
        6 => (c(), c()).prop_map(|(a, b)| Iv::Open(a, b)),
        3 => (c(), c()).prop_map(|(a, b)| Iv::LeftOpen(a, b)),
        3 => (c(), c()).prop_map(|(a, b)| Iv::RightOpen(a, b)),
        1 => (c(), c()).prop_map(|(a, b)| Iv::LeftClosed(a, b)),
        1 => (c(), c()).prop_map(|(a, b)| Iv::RightClosed(a, b)),
        4 => (bk(), c(), bk(), c()).prop_map(|(x, a, y, b)| Iv::New(x, a, y, b)),
        1 => c().prop_map(Iv::From), 1 => c().prop_map(Iv::To),
        1 => c().prop_map(Iv::UpFrom), 1 => c().prop_map(Iv::UpTo),
        2 => (c(), c()).prop_map(|(a, b)| Iv::Range(a, b)),
        1 => c().prop_map(Iv::RangeFrom), 1 => c().prop_map(Iv::RangeTo), 1 => c().prop_map(Iv::RangeToIncl),
        3 => (0u8..15, c(), c()).prop_map(|(s, a, b)| Iv::Raw(s, a, b)),
        1 => (11u8..15, c(), 0u16..2).prop_map(|(s, a, d)| Iv::Raw(s, a, (a & 0xe000) | ((a & 0x1fff) + d).min(0x1fff))),
    ].boxed()
}
/// As `iv`, with endpoints in order more often, so that fewer intervals are empty.
pub fn iv_ne() -> BoxedStrategy<Iv> {
    let c = coord;
    prop_oneof![
        3 => iv(),
        12 => (0u8..6, c(), c()).prop_map(|(s, a, b)| Iv::Sorted(s, a, b)),
        3 => c().prop_map(Iv::Point),
    ].boxed()
}

/// Index range from bounds.
fn span<T: Fin>(lk: Bk, l: u128, hk: Bk, h: u128) -> Option<(u128, u128)> {
    let lo = match lk { Bk::In => l, Bk::Ex => if l == T::LAST { return None } else { l + 1 }, Bk::Inf => 0 };
    let hi = match hk { Bk::In => h, Bk::Ex => if h == 0 { return None } else { h - 1 }, Bk::Inf => T::LAST };
    if lo <= hi { Some((lo, hi)) } else { None }
}

pub fn bound<T>(k: Bk, t: T) -> Bound<T> {
    match k { Bk::In => Bound::Include(t), Bk::Ex => Bound::Exclude(t), Bk::Inf => Bound::Infinite }
}

/// Builds the raw interval of the given shape by its public variant; two-point shapes get
/// strictly ordered points (falling back to a point when that is impossible), except shapes 11 to
/// 14, which are the two-point variants with their ends as given.
pub fn raw<T: Fin>(shape: u8, a: u128, b: u128) -> (RawInterval<T>, Option<(u128, u128)>) {
    use RawInterval as R;
    let (x, y) = (a, b);
    let (a, b) = (a.min(b), a.max(b));
    let (pa, pb) = (T::at(a), T::at(b));
    // As written, whatever the order of the ends. What a half-open variant with equal ends means
    // is left unspecified (its constructor gives the point).
    if (11..=14).contains(&shape) {
        let (px, py) = (T::at(x), T::at(y));
        return match shape {
            11 => (R::Open(px, py), span::<T>(Bk::Ex, x, Bk::Ex, y)),
            12 if x != y => (R::LeftOpen(px, py), span::<T>(Bk::Ex, x, Bk::In, y)),
            13 if x != y => (R::RightOpen(px, py), span::<T>(Bk::In, x, Bk::Ex, y)),
            _ => (R::Closed(px, py), span::<T>(Bk::In, x, Bk::In, y)),
        };
    }
    if a == b && (2..=5).contains(&shape) { return (R::Point(pa), Some((a, a))); }
    match shape {
        0 => (R::Empty, None),
        1 => (R::Point(pa), Some((a, a))),
        2 => (R::Open(pa, pb), span::<T>(Bk::Ex, a, Bk::Ex, b)),
        3 => (R::LeftOpen(pa, pb), span::<T>(Bk::Ex, a, Bk::In, b)),
        4 => (R::RightOpen(pa, pb), span::<T>(Bk::In, a, Bk::Ex, b)),
        5 => (R::Closed(pa, pb), span::<T>(Bk::In, a, Bk::In, b)),
        6 => (R::UpTo(pa), span::<T>(Bk::Inf, 0, Bk::Ex, a)),
        7 => (R::UpFrom(pa), span::<T>(Bk::Ex, a, Bk::Inf, 0)),
        8 => (R::To(pa), span::<T>(Bk::Inf, 0, Bk::In, a)),
        9 => (R::From(pa), span::<T>(Bk::In, a, Bk::Inf, 0)),
        _ => (R::Full, Some((0, T::LAST))),
    }
}

impl Iv {
    pub fn coords(&self) -> Vec<Coord> {
        match *self {
            Iv::Empty | Iv::Default | Iv::Full | Iv::RangeFull => vec![],
            Iv::Point(a) | Iv::FromPoint(a) | Iv::From(a) | Iv::To(a) | Iv::UpFrom(a) | Iv::UpTo(a)
            | Iv::RangeFrom(a) | Iv::RangeTo(a) | Iv::RangeToIncl(a) => vec![a],
            Iv::Closed(a, b) | Iv::Open(a, b) | Iv::LeftOpen(a, b) | Iv::RightOpen(a, b) | Iv::LeftClosed(a, b)
            | Iv::RightClosed(a, b) | Iv::New(_, a, _, b) | Iv::Range(a, b) | Iv::Raw(_, a, b)
            | Iv::Sorted(_, a, b) => vec![a, b],
        }
    }

    /// Constructs the interval and the index range it must cover.
    pub fn build<T: Fin>(&self, cfg: &Cfg) -> (Interval<T>, Option<(u128, u128)>) {
        use Bk::*;
        let x = |c: Coord| cfg.ix::<T>(c);
        let p = |c: Coord| cfg.pt::<T>(c);
        // Half-open forms with identical bounds are documented to give the point.
        let half = |lk, a: u128, hk, b: u128| if a == b { Some((a, a)) } else { span::<T>(lk, a, hk, b) };
        match *self {
            Iv::Empty => (Interval::empty(), None),
            Iv::Default => (Interval::default(), None),
            Iv::Full => (Interval::full(), Some((0, T::LAST))),
            Iv::RangeFull => (Interval::from(..), Some((0, T::LAST))),
            Iv::Point(a) => (Interval::point(p(a)), Some((x(a), x(a)))),
            Iv::FromPoint(a) => (Interval::from(p(a)), Some((x(a), x(a)))),
            Iv::Closed(a, b) => (Interval::closed(p(a), p(b)), span::<T>(In, x(a), In, x(b))),
            Iv::Open(a, b) => (Interval::open(p(a), p(b)), span::<T>(Ex, x(a), Ex, x(b))),
            Iv::LeftOpen(a, b) => (Interval::left_open(p(a), p(b)), half(Ex, x(a), In, x(b))),
            Iv::RightOpen(a, b) => (Interval::right_open(p(a), p(b)), half(In, x(a), Ex, x(b))),
            Iv::LeftClosed(a, b) => (Interval::left_closed(p(a), p(b)), half(In, x(a), Ex, x(b))),
            Iv::RightClosed(a, b) => (Interval::right_closed(p(a), p(b)), half(Ex, x(a), In, x(b))),
            Iv::New(lk, a, hk, b) => {
                let m = if lk != hk && lk != Inf && hk != Inf { half(lk, x(a), hk, x(b)) }
                    else { span::<T>(lk, x(a), hk, x(b)) };
                (Interval::new(bound(lk, p(a)), bound(hk, p(b))), m)
            }
            Iv::From(a) => (Interval::unbounded_from(p(a)), span::<T>(In, x(a), Inf, 0)),
            Iv::To(a) => (Interval::unbounded_to(p(a)), span::<T>(Inf, 0, In, x(a))),
            Iv::UpFrom(a) => (Interval::unbounded_up_from(p(a)), span::<T>(Ex, x(a), Inf, 0)),
            Iv::UpTo(a) => (Interval::unbounded_up_to(p(a)), span::<T>(Inf, 0, Ex, x(a))),
            // `a..a` is left unspecified (std: empty; the half-open forms here: a point).
            Iv::Range(a, b) if x(a) == x(b) => (Interval::point(p(a)), Some((x(a), x(a)))),
            Iv::Range(a, b) => (Interval::from(p(a)..p(b)), span::<T>(In, x(a), Ex, x(b))),
            Iv::RangeFrom(a) => (Interval::from(p(a)..), span::<T>(In, x(a), Inf, 0)),
            Iv::RangeTo(a) => (Interval::from(..p(a)), span::<T>(Inf, 0, Ex, x(a))),
            Iv::RangeToIncl(a) => (Interval::from(..=p(a)), span::<T>(Inf, 0, In, x(a))),
            Iv::Sorted(s, a, b) => {
                let (a, b) = if x(a) <= x(b) { (a, b) } else { (b, a) };
                match s {
                    0 | 1 => Iv::Closed(a, b),
                    2 => Iv::Open(a, b),
                    3 => Iv::LeftOpen(a, b),
                    4 => Iv::RightOpen(a, b),
                    _ => Iv::New(Bk::In, a, Bk::In, b),
                }.build::<T>(cfg)
            }
            Iv::Raw(s, a, b) => {
                let (r, m) = raw::<T>(s, x(a), x(b));
                (Interval::from(r), m)
            }
        }
    }
}

pub fn show<T: Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s }
}

/// Checks that an interval is the well-formed normalized interval of the given index range.
pub fn iv_is<T: Fin>(what: &str, i: &Interval<T>, m: Option<(u128, u128)>) -> Result<(), String> {
    let lb = m.map(|(l, _)| Bound::Include(T::at(l)));
    let ub = m.map(|(_, h)| Bound::Include(T::at(h)));
    if i.is_empty() != m.is_none() { return Err(format!("{what}: is_empty() = {} for {} (expected range {:?})", i.is_empty(), show(i), m)); }
    if i.lower_bound() != lb { return Err(format!("{what}: lower_bound of {} is {:?}, expected {:?}", show(i), i.lower_bound(), lb)); }
    if i.upper_bound() != ub { return Err(format!("{what}: upper_bound of {} is {:?}, expected {:?}", show(i), i.upper_bound(), ub)); }
    let s = Set::range(m);
    for x in probes::<T>(&[&s], &[]) {
        let want = s.has(x);
        let got = i.contains(&T::at(x));
        if got != want { return Err(format!("{what}: {} contains({:?}) = {got}, expected {want}", show(i), T::at(x))); }
    }
    Ok(())
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What tells apart two values that should be the same one: `==` and `!=` both ways, the hash alone
/// and in sequences.
pub fn unlike<T: Hash + PartialEq>(a: &T, b: &T) -> Option<&'static str> {
    #[allow(clippy::nonminimal_bool)]
    if !(a == b) || !(b == a) { return Some("not equal (==)"); }
    if a != b || b != a { return Some("unequal (!=)"); }
    if hash(a) != hash(b) { return Some("hashed differently"); }
    if hash(&[a, b]) != hash(&[b, a]) || hash(std::slice::from_ref(a)) != hash(std::slice::from_ref(b)) { return Some("hashed differently in a sequence"); }
    None
}
/// Whether `==` and `!=`, both ways, say `same`.
pub fn compares<T: PartialEq>(a: &T, b: &T, same: bool) -> bool {
    (a == b) == same && (b == a) == same && (a != b) != same && (b != a) != same
}
/// `clone` and `clone_from` over each of `over`.
pub fn cloned<T: Hash + PartialEq + Clone>(a: &T, over: impl IntoIterator<Item = T>) -> Option<&'static str> {
    if unlike(a, &a.clone()).is_some() { return Some("unlike its clone"); }
    for mut x in over {
        x.clone_from(a);
        if unlike(a, &x).is_some() { return Some("unlike its clone over another value"); }
    }
    None
}

/// Enumerates every interval recipe over a small coordinate range.
pub fn all_ivs(n: Coord) -> Vec<Iv> {
    let mut v = vec![Iv::Empty, Iv::Default, Iv::Full, Iv::RangeFull];
    for a in 0..n {
        v.extend([Iv::Point(a), Iv::FromPoint(a), Iv::From(a), Iv::To(a), Iv::UpFrom(a), Iv::UpTo(a),
            Iv::RangeFrom(a), Iv::RangeTo(a), Iv::RangeToIncl(a)]);
        for b in 0..n {
            v.extend([Iv::Closed(a, b), Iv::Open(a, b), Iv::LeftOpen(a, b), Iv::RightOpen(a, b),
                Iv::LeftClosed(a, b), Iv::RightClosed(a, b), Iv::Range(a, b)]);
            for x in [Bk::In, Bk::Ex, Bk::Inf] { for y in [Bk::In, Bk::Ex, Bk::Inf] { v.push(Iv::New(x, a, y, b)); } }
            for s in 0..15 { v.push(Iv::Raw(s, a, b)); }
        }
    }
    v
}
/// A short list of intervals covering every range over `0..n` (plus the empty one).
pub fn all_ranges(n: Coord) -> Vec<Iv> {
    let mut v = vec![Iv::Empty];
    for a in 0..n { for b in a..n { v.push(Iv::Closed(a, b)); } }
    v
}
/// Small-scope configurations: whole small types, and both ends of larger ones.
pub fn small_cfgs() -> Vec<(Cfg, Coord)> {
    let c = |ty, spread: u16, classes| (Cfg { ty, spread, classes }, spread);
    vec![c(Ty::S1, 1, 0), c(Ty::S2, 2, 0), c(Ty::S3, 3, 0), c(Ty::S7, 7, 0), c(Ty::U8, 4, 0), c(Ty::U8, 4, 1),
        c(Ty::I8, 5, 2), c(Ty::I8, 4, 0), c(Ty::I8, 4, 1), c(Ty::I32, 4, 1), c(Ty::U128, 4, 1), c(Ty::I128, 4, 0), c(Ty::Rev, 4, 0), c(Ty::Heap, 4, 1)]
}
