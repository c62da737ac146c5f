//! Ordered point types read as a dense line: N end-point positions split it into 2N+1 cells
//! (position k is cell 2k+1, the stretches between and outside are the even cells), so every
//! set of points with those end points is a bit mask over cells.
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;

pub type Mask = u128;
/// The most positions a line may have.
pub const MAXN: u8 = 60;

pub trait Dense: Ord + Clone + Debug + Hash + Serialize + DeserializeOwned + 'static {
    /// A value in the given cell, where there is one.
    fn at(cell: usize, n: usize) -> Option<Self>;
}
impl Dense for i32 { fn at(c: usize, _n: usize) -> Option<i32> { Some(c as i32 * 5 - 30) } }
/// Positions 0 and N-1 are the type's extremes; nothing lies outside them.
impl Dense for i64 {
    fn at(c: usize, n: usize) -> Option<i64> {
        if c == 0 { None }
        else if c == 1 { Some(i64::MIN) }
        else if c == 2 * n { if n == 1 { Some(3) } else { None } }
        else if c == 2 * n - 1 { Some(i64::MAX) }
        else { Some((c as i64 - n as i64) * 1000) }
    }
}
/// Neighbouring positions with a single value between them.
impl Dense for u8 { fn at(c: usize, _n: usize) -> Option<u8> { c.checked_sub(1).map(|x| x as u8) } }
impl Dense for String {
    fn at(c: usize, _n: usize) -> Option<String> {
        let l = (b'a' + (c / 2) as u8) as char;
        Some(if c % 2 == 1 { format!("{l}m") } else { format!("{l}") })
    }
}
impl Dense for Reverse<i16> { fn at(c: usize, _n: usize) -> Option<Self> { Some(Reverse(40 - 3 * c as i16)) } }
impl Dense for (u8, Option<char>) {
    fn at(c: usize, _n: usize) -> Option<Self> { Some(((c / 2) as u8, if c % 2 == 1 { Some('é') } else { None })) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DTy { I32, I64, U8, Str, Rev, Tup }
#[macro_export]
macro_rules! with_dty {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {{
        use $crate::dense::DTy;
        match $ty {
            DTy::I32 => $f::<i32>($($a),*), DTy::I64 => $f::<i64>($($a),*), DTy::U8 => $f::<u8>($($a),*),
            DTy::Str => $f::<String>($($a),*), DTy::Rev => $f::<std::cmp::Reverse<i16>>($($a),*),
            DTy::Tup => $f::<(u8, Option<char>)>($($a),*),
        }
    }};
}
pub const DTYS: [DTy; 6] = [DTy::I32, DTy::I64, DTy::U8, DTy::Str, DTy::Rev, DTy::Tup];
pub fn dty() -> BoxedStrategy<DTy> {
    prop_oneof![4 => Just(DTy::I32), 2 => Just(DTy::I64), 1 => Just(DTy::U8), 1 => Just(DTy::Str), 1 => Just(DTy::Rev), 1 => Just(DTy::Tup)].boxed()
}

/// The values of one line.
pub struct Line<T> { pub n: usize, pub cells: Vec<Option<T>>, pub full: Mask }
impl<T: Dense> Line<T> {
    pub fn new(n: usize) -> Self {
        assert!(n >= 1 && n <= MAXN as usize);
        Line { n, cells: (0..=2 * n).map(|c| T::at(c, n)).collect(), full: (1 << (2 * n + 1)) - 1 }
    }
    pub fn pos(&self, p: usize) -> T { self.cells[2 * p + 1].clone().expect("position value") }
    pub fn pos_of(&self, t: &T) -> Option<usize> { (0..self.n).find(|&p| self.cells[2 * p + 1].as_ref() == Some(t)) }
    pub fn up(&self, b: &Bound<usize>) -> Mask {
        match *b { Bound::Include(p) => self.full & !((1 << (2 * p + 1)) - 1), Bound::Exclude(p) => self.full & !((1 << (2 * p + 2)) - 1), Bound::Infinite => self.full }
    }
    pub fn down(&self, b: &Bound<usize>) -> Mask {
        match *b { Bound::Include(p) => (1 << (2 * p + 2)) - 1, Bound::Exclude(p) => (1 << (2 * p + 1)) - 1, Bound::Infinite => self.full }
    }
    /// The mask of an interval by its variant. `Err` if an end is no position or out of order.
    pub fn mask(&self, r: &RawInterval<T>) -> Result<Mask, String> {
        use RawInterval as R;
        let p = |t: &T| self.pos_of(t).ok_or_else(|| format!("{r:?} has the end point {t:?}, which was never given"));
        let two = |l: &T, u: &T| -> Result<(usize, usize), String> {
            let (a, b) = (p(l)?, p(u)?);
            if a < b { Ok((a, b)) } else { Err(format!("{r:?} has its ends out of order")) }
        };
        use Bound::*;
        Ok(match r {
            R::Empty => 0,
            R::Point(x) => 1 << (2 * p(x)? + 1),
            R::Open(l, u) => { let (a, b) = two(l, u)?; self.up(&Exclude(a)) & self.down(&Exclude(b)) }
            R::LeftOpen(l, u) => { let (a, b) = two(l, u)?; self.up(&Exclude(a)) & self.down(&Include(b)) }
            R::RightOpen(l, u) => { let (a, b) = two(l, u)?; self.up(&Include(a)) & self.down(&Exclude(b)) }
            R::Closed(l, u) => { let (a, b) = two(l, u)?; self.up(&Include(a)) & self.down(&Include(b)) }
            R::UpTo(u) => self.down(&Exclude(p(u)?)),
            R::UpFrom(l) => self.up(&Exclude(p(l)?)),
            R::To(u) => self.down(&Include(p(u)?)),
            R::From(l) => self.up(&Include(p(l)?)),
            R::Full => self.full,
        })
    }
    /// The maximal runs of a mask as first and last cell.
    pub fn runs(&self, m: Mask) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut c = 0;
        while c <= 2 * self.n {
            if m >> c & 1 == 1 {
                let s = c;
                while c < 2 * self.n && m >> (c + 1) & 1 == 1 { c += 1; }
                v.push((s, c));
            }
            c += 1;
        }
        v
    }
    pub fn lower(&self, c: usize) -> Bound<T> {
        if c == 0 { Bound::Infinite } else if c % 2 == 1 { Bound::Include(self.pos(c / 2)) } else { Bound::Exclude(self.pos(c / 2 - 1)) }
    }
    pub fn upper(&self, c: usize) -> Bound<T> {
        if c == 2 * self.n { Bound::Infinite } else if c % 2 == 1 { Bound::Include(self.pos(c / 2)) } else { Bound::Exclude(self.pos(c / 2)) }
    }
    /// The one interval covering exactly the cells `s..=e`.
    pub fn interval(&self, s: usize, e: usize) -> RawInterval<T> {
        use Bound::*;
        use RawInterval as R;
        match (self.lower(s), self.upper(e)) {
            (Include(l), Include(u)) if s == e => { let _ = u; R::Point(l) }
            (Include(l), Include(u)) => R::Closed(l, u),
            (Include(l), Exclude(u)) => R::RightOpen(l, u),
            (Exclude(l), Include(u)) => R::LeftOpen(l, u),
            (Exclude(l), Exclude(u)) => R::Open(l, u),
            (Include(l), Infinite) => R::From(l),
            (Exclude(l), Infinite) => R::UpFrom(l),
            (Infinite, Include(u)) => R::To(u),
            (Infinite, Exclude(u)) => R::UpTo(u),
            (Infinite, Infinite) => R::Full,
        }
    }
    /// The maximal intervals of a mask, in order.
    pub fn list(&self, m: Mask) -> Vec<RawInterval<T>> { self.runs(m).into_iter().map(|(s, e)| self.interval(s, e)).collect() }
    pub fn hull(&self, m: Mask) -> Mask {
        if m == 0 { return 0; }
        let (lo, hi): (u32, u32) = (m.trailing_zeros(), Mask::BITS - 1 - m.leading_zeros());
        ((1 << hi) - 1 | 1 << hi) & !((1 << lo) - 1)
    }
    /// The interval covering a contiguous mask.
    pub fn one(&self, m: Mask) -> RawInterval<T> { self.list(m).pop().unwrap_or(RawInterval::Empty) }
    /// Compares membership on every cell that has a value.
    pub fn members(&self, what: &str, m: Mask, has: impl Fn(&T) -> bool) -> Result<(), String> {
        for (c, v) in self.cells.iter().enumerate() {
            if let Some(v) = v {
                let want = m >> c & 1 == 1;
                if has(v) != want { return Err(format!("{what}: contains({v:?}) = {}, expected {want}", !want)); }
            }
        }
        Ok(())
    }
    /// Both the shape and the membership of an interval.
    pub fn raw_is(&self, what: &str, r: &RawInterval<T>, m: Mask) -> Result<(), String> {
        let got = self.mask(r).map_err(|e| format!("{what}: {e}"))?;
        if got != m { return Err(format!("{what} = {r:?}, expected {:?}", self.list(m))); }
        self.members(&format!("{what} = {r:?}"), m, |t| r.contains(t))
    }
    /// Pieces of an operation: non-empty, disjoint, together exactly `m`.
    pub fn pieces(&self, what: &str, it: impl Iterator<Item = RawInterval<T>>, m: Mask, disjoint: bool, cap: usize) -> Result<Vec<RawInterval<T>>, String> {
        let v: Vec<_> = it.take(cap + 1).collect();
        if v.len() > cap { return Err(format!("{what}: yields over {cap} pieces")); }
        let mut all = 0;
        for p in &v {
            let x = self.mask(p).map_err(|e| format!("{what}: piece {e}"))?;
            self.raw_is(&format!("{what}: piece"), p, x)?;
            if x == 0 && disjoint { return Err(format!("{what}: yields an empty piece ({v:?})")); }
            if disjoint && all & x != 0 { return Err(format!("{what}: pieces {v:?} overlap")); }
            all |= x;
        }
        if all != m { return Err(format!("{what}: pieces {v:?} cover the wrong points, expected those of {:?}", self.list(m))); }
        Ok(v)
    }
}

/// A recipe for an un-normalized interval: 0..=10 by variant, 11..=13 by constructor.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct DIv { pub shape: u8, pub a: u8, pub b: u8 }
impl DIv {
    pub fn build<T: Dense>(&self, l: &Line<T>) -> (RawInterval<T>, Mask) {
        use RawInterval as R;
        let (a, b) = (self.a as usize % l.n, self.b as usize % l.n);
        let (a, b) = (a.min(b), a.max(b));
        let (x, y) = (l.pos(a), l.pos(b));
        let r = match self.shape {
            0 => R::Empty,
            1 => R::Point(x),
            2..=5 if a == b => R::Point(x),
            2 => R::Open(x, y), 3 => R::LeftOpen(x, y), 4 => R::RightOpen(x, y), 5 => R::Closed(x, y),
            6 => R::UpTo(x), 7 => R::UpFrom(x), 8 => R::To(x), 9 => R::From(x),
            _ => R::Full,
        };
        let m = l.mask(&r).expect("recipe");
        (r, m)
    }
}
pub fn div(n: u8) -> BoxedStrategy<DIv> {
    let p = move || 0..n;
    prop_oneof![
        1 => Just(DIv { shape: 0, a: 0, b: 0 }),
        4 => p().prop_map(|a| DIv { shape: 1, a, b: a }),
        24 => (2u8..6, p(), p()).prop_map(|(shape, a, b)| DIv { shape, a, b }),
        // Short ones, so that histories do not saturate.
        8 => (2u8..6, p(), 1u8..3).prop_map(move |(shape, a, d)| DIv { shape, a, b: (a + d).min(n - 1) }),
        6 => (6u8..10, p()).prop_map(|(shape, a)| DIv { shape, a, b: a }),
        1 => Just(DIv { shape: 10, a: 0, b: 0 }),
    ].boxed()
}
/// A short interval, so that many of them leave gaps.
pub fn short(n: u8) -> BoxedStrategy<DIv> {
    (1u8..6, 0..n, 1u8..3).prop_map(move |(shape, a, d)| DIv { shape, a, b: (a + d).min(n - 1) }).boxed()
}
/// Regularly spaced intervals from one end of the line to the other, in some order: as many
/// pieces as there is room for.
pub fn comb(n: u8) -> BoxedStrategy<Vec<DIv>> {
    (1u8..6, 1u8..6, 0u8..3, 1u8..4, 0u8..4, prop_oneof![Just(1u8), Just(3), Just(7), Just(11)]).prop_map(move |(s1, s2, start, step, len, stride)| {
        let starts: Vec<u8> = (start..n).step_by(step as usize).collect();
        let k = starts.len();
        let mut v = vec![];
        let mut i = 0usize;
        // Visits every start once when the stride does not divide their number.
        let stride = if k % stride as usize == 0 { 1 } else { stride as usize };
        for j in 0..k {
            let a = starts[i % k];
            v.push(DIv { shape: if j % 2 == 0 { s1 } else { s2 }, a, b: (a + len.min(step)).min(n - 1) });
            i += stride;
        }
        v
    }).boxed()
}
/// Every interval with ends among `n` positions.
pub fn all_divs(n: u8) -> Vec<DIv> {
    let mut v = vec![DIv { shape: 0, a: 0, b: 0 }, DIv { shape: 10, a: 0, b: 0 }];
    for a in 0..n {
        for shape in [1, 6, 7, 8, 9] { v.push(DIv { shape, a, b: a }); }
        for b in a + 1..n { for shape in 2..6 { v.push(DIv { shape, a, b }); } }
    }
    v
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DOp { Union(DIv), Inter(DIv), Minus(DIv) }
pub fn dop(n: u8) -> BoxedStrategy<DOp> {
    // Unions keep the tree populated.
    prop_oneof![5 => div(n).prop_map(DOp::Union), 2 => div(n).prop_map(DOp::Inter), 4 => div(n).prop_map(DOp::Minus)].boxed()
}
impl DOp {
    pub fn apply<T: Dense>(&self, l: &Line<T>, t: &mut TineTree<T>, m: Mask) -> Mask {
        match self {
            DOp::Union(i) => { let (r, x) = i.build(l); t.union_in_place(&r); m | x }
            DOp::Inter(i) => { let (r, x) = i.build(l); t.intersect_in_place(&r); m & x }
            DOp::Minus(i) => { let (r, x) = i.build(l); t.minus_in_place(&r); m & !x }
        }
    }
    pub fn iv(&self) -> &DIv { match self { DOp::Union(i) | DOp::Inter(i) | DOp::Minus(i) => i } }
}

/// A step of a program over two trees.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum TStep {
    Edit(u8, DOp),
    /// Replace register `.0` by a whole-tree operation on the two registers.
    Union(u8, u8, u8), Inter(u8, u8, u8), Minus(u8, u8, u8), Compl(u8, u8),
    Collect(u8, Vec<DIv>), FromOne(u8, DIv), Relist(u8, u8, u8), Copy(u8, u8), New(u8),
}
pub fn tstep(n: u8) -> BoxedStrategy<TStep> {
    let r = || 0u8..2;
    prop_oneof![
        14 => (r(), dop(n)).prop_map(|(a, b)| TStep::Edit(a, b)),
        1 => (r(), r(), r()).prop_map(|(a, b, c)| TStep::Union(a, b, c)),
        1 => (r(), r(), r()).prop_map(|(a, b, c)| TStep::Inter(a, b, c)),
        1 => (r(), r(), r()).prop_map(|(a, b, c)| TStep::Minus(a, b, c)),
        1 => (r(), r()).prop_map(|(a, b)| TStep::Compl(a, b)),
        2 => (r(), proptest::collection::vec(div(n), 0..6)).prop_map(|(a, b)| TStep::Collect(a, b)),
        1 => (r(), div(n)).prop_map(|(a, b)| TStep::FromOne(a, b)),
        1 => (r(), r(), 0u8..4).prop_map(|(a, b, c)| TStep::Relist(a, b, c)),
    ].boxed()
}
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TProg { pub ty: DTy, pub n: u8, pub steps: Vec<TStep> }
pub fn tprog(max: usize, maxn: u8) -> BoxedStrategy<TProg> {
    let line = move || prop_oneof![2 => 1u8..4, 4 => 3u8..7, 3 => 6u8..=maxn];
    let usual = (dty(), line()).prop_flat_map(move |(ty, n)| (Just(ty), Just(n), proptest::collection::vec(tstep(n), 1..max)));
    // Both registers collected from short intervals first, so that both have several pieces.
    let pieces = (dty(), prop_oneof![1 => 3u8..7, 2 => 6u8..=maxn]).prop_flat_map(move |(ty, n)| {
        let few = || prop_oneof![3 => proptest::collection::vec(short(n), 1..7), 1 => comb(n)];
        (Just(ty), Just(n), (few(), few()), proptest::collection::vec(tstep(n), 0..5))
    }).prop_map(|(ty, n, (a, b), mut rest)| {
        let mut steps = vec![TStep::Collect(0, a), TStep::Collect(1, b)];
        steps.append(&mut rest);
        (ty, n, steps)
    });
    // Many pieces: both registers collected from a comb or many intervals first.
    let large = (dty(), 16u8..=MAXN).prop_flat_map(move |(ty, n)| {
        let many = move || prop_oneof![2 => comb(n), 1 => proptest::collection::vec(short(n), 8..60)];
        (Just(ty), Just(n), (many(), many()), proptest::collection::vec(tstep(n), 0..max))
    }).prop_map(|(ty, n, (a, b), mut rest)| {
        let mut steps = vec![TStep::Collect(0, a), TStep::Collect(1, b)];
        steps.append(&mut rest);
        (ty, n, steps)
    });
    prop_oneof![16 => usual, 8 => pieces, 1 => large].prop_map(|(ty, n, steps)| TProg { ty, n, steps }).boxed()
}
pub struct Two<T: Ord + Clone> { pub t: [TineTree<T>; 2], pub m: [Mask; 2] }
impl TStep {
    pub fn apply<T: Dense>(&self, l: &Line<T>, w: &mut Two<T>) {
        let i = |r: u8| (r % 2) as usize;
        match self {
            TStep::Edit(r, op) => { let r = i(*r); w.m[r] = op.apply(l, &mut w.t[r], w.m[r]); }
            TStep::Union(r, a, b) => { let (r, a, b) = (i(*r), i(*a), i(*b)); w.t[r] = w.t[a].union(&w.t[b]); w.m[r] = w.m[a] | w.m[b]; }
            TStep::Inter(r, a, b) => { let (r, a, b) = (i(*r), i(*a), i(*b)); w.t[r] = w.t[a].intersect(&w.t[b]); w.m[r] = w.m[a] & w.m[b]; }
            TStep::Minus(r, a, b) => { let (r, a, b) = (i(*r), i(*a), i(*b)); w.t[r] = w.t[a].minus(&w.t[b]); w.m[r] = w.m[a] & !w.m[b]; }
            TStep::Compl(r, a) => { let (r, a) = (i(*r), i(*a)); w.t[r] = w.t[a].complement(); w.m[r] = l.full & !w.m[a]; }
            TStep::Collect(r, v) => {
                let (rs, ms): (Vec<_>, Vec<_>) = v.iter().map(|d| d.build(l)).unzip();
                w.t[i(*r)] = rs.into_iter().collect();
                w.m[i(*r)] = ms.into_iter().fold(0, |a, b| a | b);
            }
            TStep::FromOne(r, d) => { let (x, m) = d.build(l); w.t[i(*r)] = TineTree::from_raw_interval(x); w.m[i(*r)] = m; }
            TStep::Relist(r, a, how) => {
                let v: Vec<_> = match how % 4 {
                    0 => w.t[i(*a)].interval_iter().take(400).collect(),
                    1 => w.t[i(*a)].interval_iter().rev().take(400).collect(),
                    2 => w.t[i(*a)].clone().into_iter().take(400).collect(),
                    _ => w.t[i(*a)].clone().into_iter().rev().take(400).collect(),
                };
                w.t[i(*r)] = TineTree::from(v.into_iter());
                w.m[i(*r)] = w.m[i(*a)];
            }
            TStep::Copy(r, a) => { w.t[i(*r)] = w.t[i(*a)].clone(); w.m[i(*r)] = w.m[i(*a)]; }
            TStep::New(r) => { w.t[i(*r)] = TineTree::new(); w.m[i(*r)] = 0; }
        }
    }
}

/// Interval recipes for the maximal runs of a mask over `n` positions.
pub fn divs_of(n: usize, m: Mask) -> Vec<DIv> {
    let l: Line<i32> = Line::new(n);
    l.list(m).into_iter().map(|r| {
        let p = |t: &i32| l.pos_of(t).expect("position") as u8;
        use RawInterval as R;
        let (shape, a, b) = match &r {
            R::Empty => (0, 0, 0),
            R::Point(x) => (1, p(x), p(x)),
            R::Open(x, y) => (2, p(x), p(y)),
            R::LeftOpen(x, y) => (3, p(x), p(y)),
            R::RightOpen(x, y) => (4, p(x), p(y)),
            R::Closed(x, y) => (5, p(x), p(y)),
            R::UpTo(x) => (6, p(x), p(x)),
            R::UpFrom(x) => (7, p(x), p(x)),
            R::To(x) => (8, p(x), p(x)),
            R::From(x) => (9, p(x), p(x)),
            R::Full => (10, 0, 0),
        };
        DIv { shape, a, b }
    }).collect()
}
