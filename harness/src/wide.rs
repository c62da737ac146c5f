//! Interval trees and sequences of hundreds and thousands of intervals, over ordered types read
//! as a dense line: position p is cell 2p+1 of 2N+1 cells, as in `dense`, but sets of cells are
//! range sets.
use crate::fin::Set;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

pub const POSITIONS: u128 = 32_768;
pub const LAST: u128 = 2 * POSITIONS;

pub trait Wide: Ord + Clone + Debug + std::hash::Hash + 'static {
    fn at(cell: u128) -> Self;
    fn cell(&self) -> Option<u128>;
}
impl Wide for i32 {
    fn at(c: u128) -> i32 { c as i32 * 3 - 20_000 }
    fn cell(&self) -> Option<u128> { if (self + 20_000) % 3 == 0 { u128::try_from((self + 20_000) / 3).ok() } else { None } }
}
impl Wide for String {
    fn at(c: u128) -> String { format!("{c:06}") }
    fn cell(&self) -> Option<u128> { self.parse().ok() }
}
impl Wide for std::cmp::Reverse<i64> {
    fn at(c: u128) -> Self { std::cmp::Reverse(-(c as i64) * 1_000_000_007) }
    fn cell(&self) -> Option<u128> { if self.0 % 1_000_000_007 == 0 { u128::try_from(-self.0 / 1_000_000_007).ok() } else { None } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum WTy { I32, Str, Rev }
#[macro_export]
macro_rules! with_wty {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {{
        use $crate::wide::WTy;
        match $ty { WTy::I32 => $f::<i32>($($a),*), WTy::Str => $f::<String>($($a),*), WTy::Rev => $f::<std::cmp::Reverse<i64>>($($a),*) }
    }};
}

/// An interval by variant: 0 empty, 1 a point, 2..=5 two-ended, 6..=9 one-sided, 10 full.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct WIv { pub shape: u8, pub a: u16, pub b: u16 }
impl WIv {
    pub fn build<T: Wide>(&self) -> (RawInterval<T>, Option<(u128, u128)>) {
        use RawInterval as R;
        let (a, b) = (u128::from(self.a) % POSITIONS, u128::from(self.b) % POSITIONS);
        let (a, b) = (2 * a.min(b) + 1, 2 * a.max(b) + 1);
        let (x, y) = (T::at(a), T::at(b));
        match self.shape {
            0 => (R::Empty, None),
            1 => (R::Point(x), Some((a, a))),
            2..=5 if a == b => (R::Point(x), Some((a, a))),
            2 => (R::Open(x, y), Some((a + 1, b - 1))), 3 => (R::LeftOpen(x, y), Some((a + 1, b))),
            4 => (R::RightOpen(x, y), Some((a, b - 1))), 5 => (R::Closed(x, y), Some((a, b))),
            6 => (R::UpTo(x), Some((0, a - 1))), 7 => (R::UpFrom(x), Some((a + 1, LAST))),
            8 => (R::To(x), Some((0, a))), 9 => (R::From(x), Some((a, LAST))),
            _ => (R::Full, Some((0, LAST))),
        }
    }
}
/// The cells of an interval by its variant.
pub fn cells<T: Wide>(r: &RawInterval<T>) -> Result<Option<(u128, u128)>, String> {
    use RawInterval as R;
    let p = |t: &T| t.cell().filter(|c| c % 2 == 1 && *c < LAST).ok_or_else(|| format!("{r:?} has the end point {t:?}, which was never given"));
    let two = |a: &T, b: &T| -> Result<(u128, u128), String> { let (a, b) = (p(a)?, p(b)?); if a < b { Ok((a, b)) } else { Err(format!("{r:?} has its ends out of order")) } };
    Ok(match r {
        R::Empty => None,
        R::Point(x) => { let a = p(x)?; Some((a, a)) }
        R::Open(x, y) => { let (a, b) = two(x, y)?; Some((a + 1, b - 1)) }
        R::LeftOpen(x, y) => { let (a, b) = two(x, y)?; Some((a + 1, b)) }
        R::RightOpen(x, y) => { let (a, b) = two(x, y)?; Some((a, b - 1)) }
        R::Closed(x, y) => { let (a, b) = two(x, y)?; Some((a, b)) }
        R::UpTo(x) => Some((0, p(x)? - 1)), R::UpFrom(x) => Some((p(x)? + 1, LAST)),
        R::To(x) => Some((0, p(x)?)), R::From(x) => Some((p(x)?, LAST)),
        R::Full => Some((0, LAST)),
    })
}
/// The one interval of exactly these cells.
pub fn interval<T: Wide>((s, e): (u128, u128)) -> RawInterval<T> {
    use RawInterval as R;
    // A border on a position includes it; on a stretch it excludes the position beyond.
    let l = if s == 0 { None } else if s % 2 == 1 { Some((T::at(s), true)) } else { Some((T::at(s - 1), false)) };
    let u = if e == LAST { None } else if e % 2 == 1 { Some((T::at(e), true)) } else { Some((T::at(e + 1), false)) };
    match (l, u) {
        (None, None) => R::Full,
        (None, Some((y, true))) => R::To(y), (None, Some((y, false))) => R::UpTo(y),
        (Some((x, true)), None) => R::From(x), (Some((x, false)), None) => R::UpFrom(x),
        (Some((x, true)), Some((_, true))) if s == e => R::Point(x),
        (Some((x, true)), Some((y, true))) => R::Closed(x, y), (Some((x, true)), Some((y, false))) => R::RightOpen(x, y),
        (Some((x, false)), Some((y, true))) => R::LeftOpen(x, y), (Some((x, false)), Some((y, false))) => R::Open(x, y),
    }
}

/// `count` intervals of alternating shapes, `step` positions apart, `len` long, from `start` on.
/// `order`: 0 upward, 1 downward, else by strides. `neg`: complemented once built.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct WComb { pub start: u16, pub step: u16, pub len: u16, pub count: u16, pub s1: u8, pub s2: u8, pub order: u8, pub how: u8 }
impl WComb {
    pub fn list(&self) -> Vec<WIv> {
        let n = self.count as usize;
        let v: Vec<WIv> = (0..n).map(|i| {
            let a = (u128::from(self.start) + i as u128 * u128::from(self.step.max(1))) % (POSITIONS - 64);
            WIv { shape: if i % 2 == 0 { self.s1 } else { self.s2 }, a: a as u16, b: a as u16 + self.len }
        }).collect();
        let stride = match self.order { 0 | 1 => 1, 2 if n % 3 != 0 => 3, _ if n % 7 != 0 => 7, _ => 1 };
        let mut w: Vec<WIv> = (0..n).map(|i| v[i * stride % n]).collect();
        if self.order == 1 { w.reverse(); }
        w
    }
    pub fn set(&self) -> Set { Set::from_ranges(self.list().iter().filter_map(|i| i.build::<i32>().1).collect()) }
    /// The tree and its cells: collected, united in place, or everything less the intervals.
    pub fn tree<T: Wide>(&self) -> (TineTree<T>, Set) {
        let it = self.list().into_iter().map(|i| i.build::<T>().0);
        let m = self.set();
        match self.how % 4 {
            0 => (it.collect(), m),
            1 => { let mut t = TineTree::new(); for i in it { t.union_in_place(&i); } (t, m) }
            2 => { let mut t = TineTree::from_raw_interval(RawInterval::Full); for i in it { t.minus_in_place(&i); } (t, m.complement(LAST)) }
            _ => { let t: TineTree<T> = it.collect(); (t.complement(), m.complement(LAST)) }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct WCase { pub ty: WTy, pub a: WComb, pub b: WComb, /** 0 union, 1 intersection, else difference */ pub edits: Vec<(u8, WIv)> }

/// Membership around up to 150 borders of the sets and at the extras, and the listing's cells.
pub fn tree_is<T: Wide>(what: &dyn Fn() -> String, t: &TineTree<T>, m: &Set, others: &[&Set], exact: bool) -> Result<(), String> {
    let got: Vec<RawInterval<T>> = t.interval_iter().take(3 * m.0.len() + 20).collect();
    let mut rs = vec![];
    for r in &got { if let Some(c) = cells(r).map_err(|e| format!("{}: lists {e}", what()))? { rs.push(c); } }
    if exact && rs != m.0 {
        let i = rs.iter().zip(&m.0).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: lists {} intervals, expected {}; number {i} is {:?}, expected {:?}", what(), rs.len(), m.0.len(), got.get(i), m.0.get(i).map(|r| interval::<T>(*r))));
    }
    let s = Set::from_ranges(rs);
    if &s != m {
        let i = s.0.iter().zip(&m.0).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: its intervals have the wrong points, first near {:?}, expected {:?}", what(), s.0.get(i).map(|r| interval::<T>(*r)), m.0.get(i).map(|r| interval::<T>(*r))));
    }
    for c in probes(m, others) {
        let (got, want) = (t.contains(&T::at(c)), m.has(c));
        if got != want { return Err(format!("{}: contains({:?}) = {got}, expected {want}", what(), T::at(c))); }
    }
    Ok(())
}
fn probes(m: &Set, others: &[&Set]) -> Vec<u128> {
    let mut v = vec![0, 1, LAST - 1, LAST];
    for s in std::iter::once(&m).chain(others) {
        let every = s.0.len() / 50 + 1;
        for (i, &(l, h)) in s.0.iter().enumerate() {
            if i % every == s.0.len() % every || i == 0 || i + 1 == s.0.len() { v.extend([l, h, l.saturating_sub(1), (h + 1).min(LAST)]); }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn wcomb() -> BoxedStrategy<WComb> {
    let count = prop_oneof![3 => 60u16..300, 1 => 300u16..700];
    (0u16..40, 1u16..7, 0u16..7, count, 1u8..6, 1u8..6, 0u8..4, 0u8..4)
        .prop_map(|(start, step, len, count, s1, s2, order, how)| WComb { start, step, len, count, s1, s2, order, how }).boxed()
}
pub fn wiv() -> BoxedStrategy<WIv> {
    let p = || 0u16..2000;
    prop_oneof![
        6 => (1u8..6, p(), 0u16..8).prop_map(|(shape, a, d)| WIv { shape, a, b: a + d }),
        2 => (2u8..6, p(), p()).prop_map(|(shape, a, b)| WIv { shape, a, b }),
        1 => (6u8..10, p()).prop_map(|(shape, a)| WIv { shape, a, b: a }),
    ].boxed()
}
pub fn wcase() -> BoxedStrategy<WCase> {
    let ty = prop_oneof![3 => Just(WTy::I32), 1 => Just(WTy::Str), 1 => Just(WTy::Rev)];
    (ty, wcomb(), wcomb(), proptest::collection::vec((prop_oneof![4 => Just(0u8), 1 => Just(1), 4 => Just(2)], wiv()), 0..12))
        .prop_map(|(ty, a, b, edits)| WCase { ty, a, b, edits }).boxed()
}
/// A few dozen cases of up to `max` intervals.
pub fn fixed(max: u16) -> Vec<WCase> {
    let mut v = vec![];
    let sizes: Vec<u16> = [65u16, 129, 257, 300, 513, 1025, 2050, 4100].into_iter().filter(|n| *n <= max).collect();
    for (i, &n) in sizes.iter().enumerate() { for how in 0..4u8 {
        let ty = [WTy::I32, WTy::Str, WTy::Rev][(i + how as usize) % 3];
        let shapes = [(5, 1), (2, 2), (1, 4), (3, 2)][(i + how as usize) % 4];
        let a = WComb { start: 5, step: 3, len: 2, count: n, s1: shapes.0, s2: shapes.1, order: how, how };
        let b = WComb { start: 6 + how as u16, step: 4, len: 1 + how as u16 % 3, count: n / 2 + 7, s1: 2, s2: 5, order: 3 - how, how: (how + i as u8) % 4 };
        let edits = vec![(0, WIv { shape: 5, a: n, b: n + 40 }), (2, WIv { shape: 2, a: 2 * n, b: 2 * n + 9 }), (2, WIv { shape: 1, a: n + 3, b: 0 }),
            (0, WIv { shape: 4, a: 30, b: 90 }), (1, WIv { shape: 3, a: 11, b: 3 * n - 17 }), (0, WIv { shape: 7, a: 3 * n - 30, b: 0 }), (2, WIv { shape: 8, a: 31, b: 0 })];
        v.push(WCase { ty, a, b, edits });
    } }
    v
}
