//! C16-C23: un-normalized intervals, bounds, boundary markers and interval trees over any
//! ordered point type.
use nicheck::dense::*;
use nicheck::fin::{bound, cloned, compares, hash, unlike, Bk, Set};
use nicheck::iters;
use nicheck::run::{guard, Fail, Obs, Prop, Sink};
use nicheck::wide::{self, WCase};
use nicheck::{with_dty, with_wty};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;

fn err<T>(s: String) -> Result<T, String> { Err(s) }
fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} = {got:?}, expected {want:?}")) }
}

// ---------------------------------------------------------------- C16
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct BoundsCase { pub ty: DTy, pub n: u8, pub lk: Bk, pub l: u8, pub uk: Bk, pub u: u8, pub named: bool }
pub struct C16;
impl Prop for C16 {
    type Case = BoundsCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "two bounds of any kind over one of 6 ordered point types (1..10 positions); RawInterval::new and the named constructor; shape, membership in every cell, reported bounds, rebuild and closure against the cell mask; non-trivial: at least one finite bound";
    const N: (u64, u64) = (7_820_000, 246_500_000);
    fn strategy(_t: bool) -> BoxedStrategy<BoundsCase> {
        let k = || prop_oneof![3 => Just(Bk::In), 3 => Just(Bk::Ex), 2 => Just(Bk::Inf)];
        (dty(), 1u8..10, k(), 0u8..10, k(), 0u8..10, any::<bool>())
            .prop_map(|(ty, n, lk, l, uk, u, named)| BoundsCase { ty, n, lk, l: l % n, uk, u: u % n, named }).boxed()
    }
    fn check(c: &BoundsCase, o: &mut Obs) -> Result<(), String> {
        fn go<T: Dense>(c: &BoundsCase, o: &mut Obs) -> Result<(), String> {
            use RawInterval as R;
            let line: Line<T> = Line::new(c.n as usize);
            let (l, u) = ((c.l % c.n) as usize, (c.u % c.n) as usize);
            o.nt(c.lk != Bk::Inf || c.uk != Bk::Inf);
            let both = c.lk != Bk::Inf && c.uk != Bk::Inf;
            let same = both && l == u;
            o.label_if(same, "same point");
            o.label_if(both && l > u, "out of order");
            let (lb, ub) = (bound(c.lk, line.pos(l)), bound(c.uk, line.pos(u)));
            let named = c.named;
            let r = match (c.lk, c.uk) {
                (Bk::In, Bk::In) if named => R::closed(line.pos(l), line.pos(u)),
                (Bk::In, Bk::Ex) if named => R::right_open(line.pos(l), line.pos(u)),
                (Bk::Ex, Bk::In) if named => R::left_open(line.pos(l), line.pos(u)),
                (Bk::Ex, Bk::Ex) if named => R::open(line.pos(l), line.pos(u)),
                _ => R::new(lb.clone(), ub.clone()),
            };
            let point = same && (c.lk == Bk::In || c.uk == Bk::In);
            let m = if point { 1 << (2 * l + 1) } else { line.up(&bound(c.lk, l)) & line.down(&bound(c.uk, u)) };
            let what = format!("{} ({lb:?}, {ub:?})", if named { "named constructor" } else { "new" });
            line.members(&format!("{what} = {r:?}"), m, |t| r.contains(t))?;
            eq(&format!("{what} = {r:?}: is_empty()"), r.is_empty(), m == 0)?;
            eq(&format!("{what} = {r:?}: is_full()"), r.is_full(), m == line.full && !both)?;
            let (wl, wu) = if m == 0 { (None, None) } else if point { (Some(Bound::Include(line.pos(l))), Some(Bound::Include(line.pos(l)))) } else { (Some(lb), Some(ub)) };
            eq(&format!("{what}: lower_bound()"), r.lower_bound(), wl.clone())?;
            eq(&format!("{what}: upper_bound()"), r.upper_bound(), wu.clone())?;
            let val = |b: &Option<Bound<T>>| match b { Some(Bound::Include(t)) | Some(Bound::Exclude(t)) => Some(t.clone()), _ => None };
            eq(&format!("{what}: infimum()"), r.infimum(), val(&wl))?;
            eq(&format!("{what}: supremum()"), r.supremum(), val(&wu))?;
            line.raw_is(&what, &r, m)?;
            if let (Some(a), Some(b)) = (r.lower_bound(), r.upper_bound()) { eq(&format!("{what}: rebuilt from its bounds"), R::new(a, b), r.clone())?; }
            eq(&format!("{what}: clone"), r.clone(), r.clone())?;
            let mut closed = m;
            if m != 0 && !point {
                if c.lk == Bk::Ex { closed |= 1 << (2 * l + 1); }
                if c.uk == Bk::Ex { closed |= 1 << (2 * u + 1); }
            }
            let cl = r.closure();
            line.raw_is(&format!("closure of {r:?}"), &cl, closed)?;
            line.raw_is(&format!("closure of {cl:?}"), &cl.closure(), closed)
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for ty in DTYS { for n in 1..6u8 { for lk in [Bk::In, Bk::Ex, Bk::Inf] { for uk in [Bk::In, Bk::Ex, Bk::Inf] {
            for l in 0..n { for u in 0..n { for named in [false, true] {
                if !k.turn(|| BoundsCase { ty, n, lk, l, uk, u, named }) { return; }
            } } }
        } } } }
    }
}

// ---------------------------------------------------------------- C17
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TwoRaw { pub ty: DTy, pub n: u8, pub x: DIv, pub y: DIv }
fn adjacent(n: usize, a: &DIv, b: &DIv, l: &Line<i32>) -> bool {
    let _ = n;
    let (ra, _) = a.build(l);
    let (rb, _) = b.build(l);
    let touch = |lo: Option<Bound<i32>>, up: Option<Bound<i32>>| match (lo, up) {
        (Some(Bound::Include(x)), Some(Bound::Include(y) | Bound::Exclude(y))) | (Some(Bound::Exclude(x)), Some(Bound::Include(y))) => x == y,
        _ => false,
    };
    let lo = |r: &RawInterval<i32>| bounds_by_variant(r).0;
    let up = |r: &RawInterval<i32>| bounds_by_variant(r).1;
    touch(lo(&ra), up(&rb)) || touch(lo(&rb), up(&ra))
}
/// The bounds of an interval, read off its variant.
fn bounds_by_variant<T: Clone>(r: &RawInterval<T>) -> (Option<Bound<T>>, Option<Bound<T>>) {
    use Bound::*;
    use RawInterval as R;
    let (l, u) = match r.clone() {
        R::Empty => return (None, None),
        R::Point(p) => (Include(p.clone()), Include(p)),
        R::Open(l, u) => (Exclude(l), Exclude(u)),
        R::LeftOpen(l, u) => (Exclude(l), Include(u)),
        R::RightOpen(l, u) => (Include(l), Exclude(u)),
        R::Closed(l, u) => (Include(l), Include(u)),
        R::UpTo(u) => (Infinite, Exclude(u)),
        R::UpFrom(l) => (Exclude(l), Infinite),
        R::To(u) => (Infinite, Include(u)),
        R::From(l) => (Include(l), Infinite),
        R::Full => (Infinite, Infinite),
    };
    (Some(l), Some(u))
}
pub struct C17;
impl Prop for C17 {
    type Case = TwoRaw;
    const ID: &'static str = "C17";
    const RULE: &'static str = "two un-normalized intervals of every shape over 6 ordered point types (1..10 positions); all pairwise operations against cell masks (values in the gaps prove density); non-trivial: both non-empty";
    const N: (u64, u64) = (3_000_000, 94_500_000);
    fn strategy(_t: bool) -> BoxedStrategy<TwoRaw> {
        (dty(), 1u8..10).prop_flat_map(|(ty, n)| (Just(ty), Just(n), div(n), div(n))).prop_map(|(ty, n, x, y)| TwoRaw { ty, n, x, y }).boxed()
    }
    fn check(c: &TwoRaw, o: &mut Obs) -> Result<(), String> {
        fn go<T: Dense>(c: &TwoRaw, o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(c.n as usize);
            let (a, ma) = c.x.build(&l);
            let (b, mb) = c.y.build(&l);
            o.nt(ma != 0 && mb != 0);
            o.label_if(ma & mb != 0, "overlap");
            let adj = adjacent(c.n as usize, &c.x, &c.y, &Line::new(c.n as usize));
            o.label_if(adj, "adjacent");
            o.label_if(adj && ma & mb == 0, "adjacent and disjoint");
            l.pieces(&format!("{a:?}.complement()"), a.complement(), l.full & !ma, true, 4)?;
            for (x, y, mx, my) in [(&a, &b, ma, mb), (&b, &a, mb, ma)] {
                l.pieces(&format!("{x:?}.union({y:?})"), x.union(y), mx | my, true, 4)?;
                l.pieces(&format!("{x:?}.minus({y:?})"), x.minus(y), mx & !my, true, 4)?;
                l.raw_is(&format!("{x:?}.intersect({y:?})"), &x.intersect(y), mx & my)?;
                l.raw_is(&format!("{x:?}.enclose({y:?})"), &x.enclose(y), l.hull(mx | my))?;
                eq(&format!("{x:?}.intersects({y:?})"), x.intersects(y), mx & my != 0)?;
                eq(&format!("{x:?}.is_adjacent_to({y:?})"), x.is_adjacent_to(y), adj)?;
                eq(&format!("{x:?} == {y:?}"), x == y, mx == my)?;
            }
            Ok(())
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for ty in DTYS { for n in 1..if t { 7u8 } else { 5 } {
            let v = all_divs(n);
            for &x in &v { for &y in &v { if !k.turn(|| TwoRaw { ty, n, x, y }) { return; } } }
        } }
    }
}

// ---------------------------------------------------------------- C18
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ManyRaw { pub ty: DTy, pub n: u8, pub v: Vec<DIv>, #[serde(default, skip_serializing_if = "Option::is_none")] pub wide: Option<WCase> }
pub struct C18;
impl Prop for C18 {
    type Case = ManyRaw;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a sequence of 0..12 un-normalized intervals (thorough: 0..40; one in 25 has 8..80), also reversed, and sequences of up to about 1,000 (thorough: 2,000); bulk union (points covered), intersection and enclosure against masks; non-trivial: at least two non-empty intervals";
    const N: (u64, u64) = (3_000_000, 94_500_000);
    fn strategy(t: bool) -> BoxedStrategy<ManyRaw> {
        let max = if t { 40 } else { 12 };
        let usual = (dty(), 1u8..12).prop_flat_map(move |(ty, n)| {
            // Nested ones keep intersections from being empty at once.
            let wide = (2u8..6, 0..=n / 3, n - n / 3 - 1..n).prop_map(|(shape, a, b)| DIv { shape, a, b });
            let some = prop_oneof![3 => div(n), 2 => wide.clone()];
            (Just(ty), Just(n), prop_oneof![2 => proptest::collection::vec(some, 0..max), 1 => proptest::collection::vec(wide, 0..5)].boxed())
        });
        // Long sequences: many separate pieces for the union, many wide ones for the intersection.
        let large = (dty(), 16u8..=MAXN).prop_flat_map(move |(ty, n)| {
            let wide = (2u8..6, 0..=n / 3, n - n / 3 - 1..n).prop_map(|(shape, a, b)| DIv { shape, a, b });
            (Just(ty), Just(n), prop_oneof![2 => comb(n), 1 => proptest::collection::vec(short(n), 8..80), 1 => proptest::collection::vec(wide, 8..80)].boxed())
        });
        let small = prop_oneof![24 => usual, 1 => large].prop_map(|(ty, n, v)| ManyRaw { ty, n, v, wide: None });
        prop_oneof![8_000 => small, 1 => wide::wcase().prop_map(|w| ManyRaw { ty: DTy::I32, n: 1, v: vec![], wide: Some(w) })].boxed()
    }
    fn check(c: &ManyRaw, o: &mut Obs) -> Result<(), String> {
        if let Some(w) = &c.wide { return with_wty!(w.ty, wide_bulk(w, o)); }
        fn go<T: Dense>(c: &ManyRaw, o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(c.n as usize);
            let (mut v, ms): (Vec<_>, Vec<_>) = c.v.iter().map(|d| d.build(&l)).unzip();
            o.nt(ms.iter().filter(|m| **m != 0).count() >= 2);
            let all = ms.iter().fold(0, |a, b| a | b);
            let com = ms.iter().fold(l.full, |a, b| a & b);
            o.label_if(com != 0 && ms.len() > 1, "common points");
            o.label_if(l.runs(all).len() > 1, "disconnected union");
            o.label_if(v.is_empty(), "no interval");
            o.label_if(v.len() >= 20, "20 or more intervals");
            o.label_if(l.runs(all).len() >= 10, "union in ten or more pieces");
            for _ in 0..2 {
                let it = || v.clone().into_iter();
                l.pieces(&format!("union_all of {v:?}"), RawInterval::union_all(it()), all, false, v.len() + 4)?;
                l.raw_is(&format!("intersect_all of {v:?}"), &RawInterval::intersect_all(it()), com)?;
                l.raw_is(&format!("enclose_all of {v:?}"), &RawInterval::enclose_all(it()), l.hull(all))?;
                // The same from iterators that cannot tell their length.
                l.pieces(&format!("union_all of {v:?}, one at a time"), RawInterval::union_all(iters::lazily(&v)), all, false, v.len() + 4)?;
                l.raw_is(&format!("intersect_all of {v:?}, one at a time"), &RawInterval::intersect_all(iters::lazily(&v)), com)?;
                l.raw_is(&format!("enclose_all of {v:?}, one at a time"), &RawInterval::enclose_all(iters::lazily(&v)), l.hull(all))?;
                v.reverse();
            }
            Ok(())
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for w in wide::fixed(if t { 4100 } else { 1025 }) { if !k.turn(|| ManyRaw { ty: DTy::I32, n: 1, v: vec![], wide: Some(w) }) { return; } }
        for n in 1..4u8 {
            let v = all_divs(n);
            if !k.turn(|| ManyRaw { ty: DTy::I32, n, v: vec![], wide: None }) { return; }
            for &x in &v {
                if !k.turn(|| ManyRaw { ty: DTy::I64, n, v: vec![x], wide: None }) { return; }
                for &y in &v {
                    if !k.turn(|| ManyRaw { ty: DTy::Str, n, v: vec![x, y], wide: None }) { return; }
                    if n < 3 || t { for &z in &v { if !k.turn(|| ManyRaw { ty: DTy::I32, n, v: vec![x, y, z], wide: None }) { return; } } }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C19
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ThreeBounds { pub ty: DTy, pub n: u8, pub b: [(Bk, u8); 3] }
pub struct C19;
impl Prop for C19 {
    type Case = ThreeBounds;
    const ID: &'static str = "C19";
    const RULE: &'static str = "three bounds of any kind over 6 ordered point types; the four combinations as half-line masks, commutativity, associativity, idempotence, and the accessors; non-trivial: at least two finite bounds";
    const N: (u64, u64) = (5_450_000, 171_800_000);
    fn strategy(_t: bool) -> BoxedStrategy<ThreeBounds> {
        let k = || prop_oneof![3 => Just(Bk::In), 3 => Just(Bk::Ex), 1 => Just(Bk::Inf)];
        (dty(), 1u8..8, [(k(), 0u8..8), (k(), 0u8..8), (k(), 0u8..8)])
            .prop_map(|(ty, n, mut b)| { for x in &mut b { x.1 %= n; } ThreeBounds { ty, n, b } }).boxed()
    }
    fn check(c: &ThreeBounds, o: &mut Obs) -> Result<(), String> {
        fn go<T: Dense>(c: &ThreeBounds, o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(c.n as usize);
            let b: Vec<Bound<T>> = c.b.iter().map(|(k, p)| bound(*k, l.pos((p % c.n) as usize))).collect();
            let ix = |b: &Bound<T>| -> Result<Bound<usize>, String> {
                let p = |t: &T| l.pos_of(t).ok_or_else(|| format!("{b:?} is at a point that was never given"));
                Ok(match b { Bound::Include(t) => Bound::Include(p(t)?), Bound::Exclude(t) => Bound::Exclude(p(t)?), Bound::Infinite => Bound::Infinite })
            };
            let up = |b: &Bound<T>| ix(b).map(|b| l.up(&b));
            let down = |b: &Bound<T>| ix(b).map(|b| l.down(&b));
            o.nt(b.iter().filter(|b| !matches!(b, Bound::Infinite)).count() >= 2);
            type F<T> = fn(&Bound<T>, &Bound<T>) -> Bound<T>;
            let fs: [(&str, F<T>, bool, bool); 4] = [("least_union", |a, b| a.least_union(b), true, true),
                ("greatest_intersect", |a, b| a.greatest_intersect(b), true, false),
                ("greatest_union", |a, b| a.greatest_union(b), false, true),
                ("least_intersect", |a, b| a.least_intersect(b), false, false)];
            for (name, f, lower, union) in fs {
                let half = |b: &Bound<T>| if lower { up(b) } else { down(b) };
                for x in &b { for y in &b {
                    let r = f(x, y);
                    let (hx, hy) = (half(x)?, half(y)?);
                    let want = if union { hx | hy } else { hx & hy };
                    if half(&r)? != want { return err(format!("{x:?}.{name}({y:?}) = {r:?}")); }
                    if f(y, x) != r { return err(format!("{x:?}.{name}({y:?}) = {r:?} but swapped it is {:?}", f(y, x))); }
                    if f(x, x) != *x { return err(format!("{x:?}.{name}(itself) = {:?}", f(x, x))); }
                } }
                let (x, y, z) = (&b[0], &b[1], &b[2]);
                if f(&f(x, y), z) != f(x, &f(y, z)) { return err(format!("{name} of {x:?}, {y:?}, {z:?} depends on grouping")); }
            }
            for (x, (k, p)) in b.iter().zip(&c.b) {
                let p = l.pos((p % c.n) as usize);
                let fin = *k != Bk::Inf;
                let some = if fin { Some(p.clone()) } else { None };
                let w = format!("{x:?}");
                eq(&format!("{w}.is_finite()"), x.is_finite(), fin)?;
                eq(&format!("{w}.is_inclusive()"), x.is_inclusive(), *k == Bk::In)?;
                eq(&format!("{w}.is_exclusive()"), x.is_exclusive(), *k == Bk::Ex)?;
                eq(&format!("{w}.as_ref()"), x.as_ref(), some.as_ref())?;
                let def = l.pos(0);
                eq(&format!("{w}.unwrap_or()"), x.clone().unwrap_or(def.clone()), some.clone().unwrap_or(def.clone()))?;
                eq(&format!("{w}.unwrap_or_else()"), x.clone().unwrap_or_else(|| def.clone()), some.clone().unwrap_or(def.clone()))?;
                if fin { eq(&format!("{w}.unwrap()"), x.clone().unwrap(), p.clone())?; }
                eq(&format!("{w}.map()"), x.clone().map(|t| (t, 7)), bound(*k, (p.clone(), 7)))?;
                eq(&format!("{w}.map_or()"), x.clone().map_or(None, Some), some.clone())?;
                eq(&format!("{w}.map_or_else()"), x.clone().map_or_else(|| None, Some), some.clone())?;
                // A closure runs once where its result is used, and not at all elsewhere.
                let (u, v) = (Cell::new(0), Cell::new(0));
                let (used, spare) = (|| u.set(u.get() + 1), || v.set(v.get() + 1));
                let _ = x.clone().map(|_| used());
                let _ = x.clone().map_or((), |_| used());
                let _ = x.clone().map_or_else(spare, |_| used());
                let _ = x.clone().unwrap_or_else(|| { spare(); def.clone() });
                eq(&format!("calls of the mapping closures of {w}"), u.get(), if fin { 3 } else { 0 })?;
                eq(&format!("calls of the default closures of {w}"), v.get(), if fin { 0 } else { 2 })?;
                eq(&format!("transfer({w})"), Bound::transfer(x, "to"), bound(*k, "to"))?;
                eq(&format!("transfer(owned {w})"), Bound::transfer(x.clone(), 3), bound(*k, 3))?;
                let mut y = x.clone();
                if let Some(t) = y.as_mut() { *t = def.clone(); }
                eq(&format!("{w} after as_mut()"), y, bound(*k, def))?;
                eq("Bound::from", Bound::from(p.clone()), Bound::Include(p))?;
            }
            eq("Bound::default", Bound::<u8>::default(), Bound::Include(0))
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for ty in DTYS { for n in 1..4u8 {
            let mut v = vec![(Bk::Inf, 0)];
            for p in 0..n { v.push((Bk::In, p)); v.push((Bk::Ex, p)); }
            for &a in &v { for &b in &v { for &c in &v { if !k.turn(|| ThreeBounds { ty, n, b: [a, b, c] }) { return; } } } }
        } }
    }
}

// ---------------------------------------------------------------- C20
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TineCase { pub ty: DTy, pub n: u8, pub x: (u8, u8), pub y: (u8, u8), pub iv: DIv }
/// The marker kinds with their (below, at, above) record; 6 and 7 are the unbounded ones.
fn tine<T>(k: u8, p: T) -> Tine<T> {
    match k {
        0 => Tine::Lower(Bound::Include(p)), 1 => Tine::Lower(Bound::Exclude(p)),
        2 => Tine::Point(Bound::Include(p)), 3 => Tine::Point(Bound::Exclude(p)),
        4 => Tine::Upper(Bound::Include(p)), 5 => Tine::Upper(Bound::Exclude(p)),
        6 => Tine::Lower(Bound::Infinite), _ => Tine::Upper(Bound::Infinite),
    }
}
const REC: [[bool; 3]; 6] = [[false, true, true], [false, false, true], [false, true, false], [true, false, true], [true, true, false], [true, false, false]];
fn kind_of(r: [bool; 3]) -> Option<u8> { REC.iter().position(|x| *x == r).map(|k| k as u8) }
pub struct C20;
impl Prop for C20 {
    type Case = TineCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "two boundary markers and an interval; merges at one point against (below, at, above) records, inversion, order, the markers of the interval; non-trivial: both markers finite";
    const N: (u64, u64) = (6_400_000, 252_000_000);
    fn strategy(_t: bool) -> BoxedStrategy<TineCase> {
        (dty(), 1u8..8).prop_flat_map(|(ty, n)| (Just(ty), Just(n), (0u8..8, 0..n), (0u8..8, 0..n), div(n)))
            .prop_map(|(ty, n, x, y, iv)| TineCase { ty, n, x, y, iv }).boxed()
    }
    fn check(c: &TineCase, o: &mut Obs) -> Result<(), String> {
        fn go<T: Dense>(c: &TineCase, o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(c.n as usize);
            let (px, py) = (l.pos((c.x.1 % c.n) as usize), l.pos((c.y.1 % c.n) as usize));
            let (kx, ky) = (c.x.0 % 8, c.y.0 % 8);
            let (x, y) = (tine(kx, px.clone()), tine(ky, py));
            o.nt(kx < 6 && ky < 6);
            // Merging at x's point.
            let yy = tine(ky, px.clone());
            if kx < 6 && ky < 6 {
                let (rx, ry) = (REC[kx as usize], REC[ky as usize]);
                let com = |f: fn(bool, bool) -> bool| kind_of([f(rx[0], ry[0]), f(rx[1], ry[1]), f(rx[2], ry[2])]).map(|k| tine(k, px.clone()));
                eq(&format!("{x:?}.union({yy:?})"), x.clone().union(&yy), com(|a, b| a || b))?;
                eq(&format!("{x:?}.intersect({yy:?})"), x.clone().intersect(&yy), com(|a, b| a && b))?;
                eq(&format!("{x:?}.minus({yy:?})"), x.clone().minus(&yy), com(|a, b| a && !b))?;
            } else if kx == ky {
                eq(&format!("{x:?}.union(itself)"), x.clone().union(&yy), Some(x.clone()))?;
                eq(&format!("{x:?}.intersect(itself)"), x.clone().intersect(&yy), Some(x.clone()))?;
                eq(&format!("{x:?}.minus(itself)"), x.clone().minus(&yy), None)?;
            }
            if kx < 6 {
                let r = REC[kx as usize];
                let inv = kind_of([!r[0], !r[1], !r[2]]).map(|k| tine(k, px.clone()));
                eq(&format!("{x:?}.invert()"), Some(x.clone().invert()), inv)?;
                eq(&format!("{x:?}.invert().invert()"), x.clone().invert().invert(), x.clone())?;
                eq(&format!("{x:?}.is_lower_bound()"), x.is_lower_bound(), r[2])?;
                eq(&format!("{x:?}.is_upper_bound()"), x.is_upper_bound(), r[0])?;
                eq(&format!("{x:?}.as_ref()"), x.as_ref(), Some(&px))?;
                let kind = [Bk::In, Bk::Ex][(kx % 2) as usize];
                eq(&format!("{x:?}.into_inner()"), x.clone().into_inner(), bound(kind, px.clone()))?;
            } else {
                eq(&format!("{x:?}.as_ref()"), x.as_ref(), None)?;
                eq(&format!("{x:?}.is_lower_bound()"), x.is_lower_bound(), kx == 6)?;
                eq(&format!("{x:?}.is_upper_bound()"), x.is_upper_bound(), kx == 7)?;
                eq(&format!("{x:?}.into_inner()"), x.clone().into_inner(), Bound::Infinite)?;
            }
            eq(&format!("{x:?}.is_point_include()"), x.is_point_include(), kx == 2)?;
            eq(&format!("{x:?}.is_point_exclude()"), x.is_point_exclude(), kx == 3)?;
            // Order.
            let key = |k: u8, p: u8| match k { 6 => (0, 0), 7 => (2, 0), _ => (1, p % c.n) };
            let want = key(kx, c.x.1).cmp(&key(ky, c.y.1));
            eq(&format!("{x:?} cmp {y:?}"), x.cmp(&y), want)?;
            eq(&format!("{x:?} partial_cmp {y:?}"), x.partial_cmp(&y), Some(want))?;
            eq(&format!("{y:?} cmp {x:?}"), y.cmp(&x), want.reverse())?;
            eq(&format!("{x:?} <, <=, >, >= {y:?}"), [x < y, x <= y, x > y, x >= y], [want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()])?;
            if want.is_ne() {
                let (lo, hi) = if want.is_lt() { (&x, &y) } else { (&y, &x) };
                eq(&format!("min of {x:?} and {y:?}"), &x.clone().min(y.clone()), lo)?;
                eq(&format!("max of {x:?} and {y:?}"), &x.clone().max(y.clone()), hi)?;
            }
            // The markers of an interval.
            let (r, _) = c.iv.build(&l);
            let ms: Vec<Tine<T>> = match (&r, bounds_by_variant(&r)) {
                (RawInterval::Point(p), _) => vec![Tine::Point(Bound::Include(p.clone()))],
                (_, (Some(a), Some(b))) => vec![Tine::Lower(a), Tine::Upper(b)],
                _ => vec![],
            };
            eq(&format!("markers of {r:?}"), Tine::from_raw_interval(r.clone()).collect::<Vec<_>>(), ms)
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for ty in DTYS { for n in 1..4u8 {
            let ivs = all_divs(n);
            for kx in 0..8 { for px in 0..n { for ky in 0..8 { for py in 0..n {
                let iv = ivs[(kx as usize * 7 + px as usize * 3 + ky as usize + py as usize) % ivs.len()];
                if !k.turn(|| TineCase { ty, n, x: (kx, px), y: (ky, py), iv }) { return; }
            } } } }
            for &iv in &ivs { if !k.turn(|| TineCase { ty, n, x: (0, 0), y: (2, 0), iv }) { return; } }
        } }
    }
}

// ---------------------------------------------------------------- C21
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct DHist { pub ty: DTy, pub n: u8, pub start: Vec<DIv>, pub ops: Vec<DOp>, #[serde(default, skip_serializing_if = "Option::is_none")] pub wide: Option<WCase> }
/// The tree has exactly the points of the mask: by membership and by what it lists.
fn tree_points<T: Dense>(what: &str, l: &Line<T>, t: &TineTree<T>, m: Mask) -> Result<(), String> {
    l.members(what, m, |x| t.contains(x))?;
    l.pieces(&format!("{what}: listing"), t.interval_iter(), m, false, 4 * l.n + 4).map(|_| ())
}
pub struct C21;
impl Prop for C21 {
    type Case = DHist;
    const ID: &'static str = "C21";
    const RULE: &'static str = "a history of in-place unions, intersections and differences on a tree over 1..60 positions (quick tier mostly 1..16), points compared with a cell mask after every step; plus trees of up to 4,100 intervals; plus 24 (96) histories of 300 to 1,200 (4,000) edits; plus breadth-first search over every tree reachable with up to 4 (thorough: 6) positions, every operation with every interval from each; non-trivial: at least 3 steps, at least two kinds of operation, and the tree non-empty at some step after the second";
    const N: (u64, u64) = (1_110_000, 35_100_000);
    fn strategy(t: bool) -> BoxedStrategy<DHist> {
        let (max, maxn) = if t { (60, MAXN) } else { (24, 16) };
        let usual = (dty(), prop_oneof![2 => 1u8..4, 4 => 3u8..8, 3 => 6u8..=maxn]).prop_flat_map(move |(ty, n)| (Just(ty), Just(n),
            proptest::collection::vec(div(n), 0..4), proptest::collection::vec(dop(n), 1..max)));
        // Many pieces, and long histories of short edits that keep them.
        let large = (dty(), 16u8..=MAXN).prop_flat_map(move |(ty, n)| {
            let few = prop_oneof![3 => short(n).prop_map(DOp::Union), 3 => short(n).prop_map(DOp::Minus), 1 => dop(n)];
            (Just(ty), Just(n), prop_oneof![2 => comb(n), 1 => proptest::collection::vec(short(n), 8..60)],
                prop_oneof![3 => proptest::collection::vec(few.clone(), 1..10), 1 => proptest::collection::vec(few, 1..if t { 300 } else { 100 })])
        });
        let small = prop_oneof![24 => usual, 1 => large].prop_map(|(ty, n, start, ops)| DHist { ty, n, start, ops, wide: None });
        prop_oneof![4_000 => small, 1 => wide::wcase().prop_map(|w| DHist { ty: DTy::I32, n: 1, start: vec![], ops: vec![], wide: Some(w) })].boxed()
    }
    fn check(c: &DHist, o: &mut Obs) -> Result<(), String> {
        if let Some(w) = &c.wide { return with_wty!(w.ty, wide_edits(w, o)); }
        fn go<T: Dense>(c: &DHist, o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(c.n as usize);
            let mut m = 0;
            let mut t: TineTree<T> = TineTree::new();
            for d in &c.start { let (r, x) = d.build(&l); t.union_in_place(&r); m |= x; }
            tree_points("the starting tree", &l, &t, m)?;
            let (mut late, mut kinds, mut some, mut many) = (false, [false; 3], false, false);
            for (i, op) in c.ops.iter().enumerate() {
                m = op.apply(&l, &mut t, m);
                late |= i >= 2 && m != 0;
                kinds[match op { DOp::Union(_) => 0, DOp::Inter(_) => 1, DOp::Minus(_) => 2 }] = true;
                let k = l.runs(m).len();
                (some, many) = (some | (k >= 3), many | (k >= 10));
                if let Err(e) = tree_points("", &l, &t, m) { return err(format!("after step {} {:?}{e}; tree {t:?}", i + 1, op)); }
            }
            o.label_if(some, "three or more pieces at some step");
            o.label_if(many, "ten or more pieces at some step");
            o.nt(late && kinds.iter().filter(|k| **k).count() >= 2);
            o.label(match c.ops.len() { 0..=3 => "1-3 steps", 4..=9 => "4-9 steps", _ => "10+ steps" });
            Ok(())
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for w in wide::fixed(4100) { if !k.turn(|| DHist { ty: DTy::I32, n: 1, start: vec![], ops: vec![], wide: Some(w) }) { return; } }
        // Very long histories of edits.
        for i in 0..if t { 96 } else { 24u64 } { if !k.turn(|| very_long(i, if t { 4000 } else { 1200 })) { return; } }
        // One breadth-first search per line; shards take different lines.
        let lines: &[(DTy, u8)] = if t { &[(DTy::I32, 6), (DTy::I64, 5), (DTy::Str, 4), (DTy::Rev, 4), (DTy::I32, 3), (DTy::U8, 4), (DTy::Tup, 4), (DTy::I32, 5)] }
            else { &[(DTy::I32, 4), (DTy::I64, 4), (DTy::Str, 3), (DTy::Rev, 3), (DTy::I32, 3), (DTy::U8, 3), (DTy::I64, 3), (DTy::I32, 2)] };
        let (ty, n) = lines[k.shard as usize % lines.len()];
        fn go<T: Dense>(ty: DTy, n: u8, k: &mut Sink<C21>) { bfs::<T>(ty, n, k) }
        with_dty!(ty, go(ty, n, k))
    }
}
/// History `i` of 300 to `max` edits, mostly short ones, with whole-line clearings now and then.
fn very_long(i: u64, max: u64) -> DHist {
    let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut draw = |n: u64| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) % n };
    let n = [3u8, 6, 12, 30, MAXN][i as usize % 5];
    let ty = DTYS[i as usize % DTYS.len()];
    let len = if i % 3 == 0 { max } else { 300 + draw(max - 299) };
    let ops = (0..len).map(|_| {
        let (shape, a, d, w) = (draw(5) as u8 + 1, draw(u64::from(n)) as u8, draw(3) as u8, draw(40));
        let short = DIv { shape, a, b: (a + d).min(n - 1) };
        match w {
            0 => DOp::Inter(DIv { shape: draw(11) as u8, a, b: draw(u64::from(n)) as u8 }),
            1 => DOp::Union(DIv { shape: draw(10) as u8, a, b: draw(u64::from(n)) as u8 }),
            2 => DOp::Minus(DIv { shape: draw(10) as u8, a, b: draw(u64::from(n)) as u8 }),
            3..=21 => DOp::Union(short),
            _ => DOp::Minus(short),
        }
    }).collect();
    DHist { ty, n, start: vec![], ops, wide: None }
}
/// Explores every representation reachable from the empty tree. Each transition is checked on
/// the tree itself; a failing path is then re-run as an ordinary case.
fn bfs<T: Dense>(ty: DTy, n: u8, k: &mut Sink<C21>) {
    let l: Line<T> = Line::new(n as usize);
    let ivs = all_divs(n);
    let mut known: BTreeMap<String, ()> = BTreeMap::new();
    let mut queue: VecDeque<(TineTree<T>, Mask, Vec<DOp>)> = VecDeque::new();
    queue.push_back((TineTree::new(), 0, vec![]));
    known.insert(format!("{:?}", TineTree::<T>::new()), ());
    while let Some((t, m, path)) = queue.pop_front() {
        for iv in &ivs { for op in [DOp::Union(*iv), DOp::Inter(*iv), DOp::Minus(*iv)] {
            if k.done() { return; }
            let r = guard(|| {
                let mut u = t.clone();
                let m2 = op.apply(&l, &mut u, m);
                tree_points("", &l, &u, m2)?;
                Ok((u, m2))
            });
            let mut p = path.clone();
            p.push(op);
            k.step(hash(&(ty, n, m, op)), m != 0);
            match r {
                Ok((u, m2)) => {
                    let key = format!("{u:?}");
                    if !known.contains_key(&key) && known.len() < 20_000 { known.insert(key, ()); queue.push_back((u, m2, p)); }
                }
                Err(Fail::Harness(e)) => { eprintln!("ERROR harness in search: {e}"); std::process::exit(2) }
                Err(Fail::Violation(_)) => { k.eval(DHist { ty, n, start: vec![], ops: p, wide: None }); if k.done() { return; } }
            }
        } }
    }
}

// ---------------------------------------------------------------- C22
/// A program over two trees, or trees of very many intervals.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TwoTrees { #[serde(flatten)] pub p: TProg, #[serde(default, skip_serializing_if = "Option::is_none")] pub wide: Option<WCase> }
pub struct C22;
fn run_prog<T: Dense>(c: &TProg) -> (Line<T>, Two<T>) {
    let l: Line<T> = Line::new(c.n as usize);
    let mut w = Two { t: [TineTree::new(), TineTree::new()], m: [0, 0] };
    for s in &c.steps { s.apply(&l, &mut w); }
    (l, w)
}
impl Prop for C22 {
    type Case = TwoTrees;
    const ID: &'static str = "C22";
    const RULE: &'static str = "two trees reached by a program of edits, whole-tree operations, collections and re-listings; then complement, union, intersection, difference (both orders and with themselves), operands compared with their state before, and every query, against cell masks; trees of up to 4,100 intervals; exhaustively all pairs of trees over 3 positions (thorough: 4); non-trivial: both trees non-empty and one with several pieces";
    const N: (u64, u64) = (810_000, 25_500_000);
    fn strategy(t: bool) -> BoxedStrategy<TwoTrees> {
        let small = if t { tprog(40, MAXN) } else { tprog(16, 14) }.prop_map(|p| TwoTrees { p, wide: None });
        prop_oneof![4_000 => small, 1 => wide::wcase().prop_map(|w| TwoTrees { p: no_prog(), wide: Some(w) })].boxed()
    }
    fn check(c: &TwoTrees, o: &mut Obs) -> Result<(), String> {
        if let Some(w) = &c.wide { return with_wty!(w.ty, wide_ops(w, o)); }
        let c = &c.p;
        fn go<T: Dense>(c: &TProg, o: &mut Obs) -> Result<(), String> {
            let (l, w) = run_prog::<T>(c);
            o.nt(w.m[0] != 0 && w.m[1] != 0 && (l.runs(w.m[0]).len() > 1 || l.runs(w.m[1]).len() > 1));
            o.label_if(w.m[0] & w.m[1] != 0 && w.m[0] != w.m[1], "overlap");
            o.label_if(w.m.iter().any(|m| l.runs(*m).len() >= 10), "ten or more pieces");
            o.label_if(w.m[0] & w.m[1] == 0 && w.m[0] != 0 && w.m[1] != 0, "disjoint");
            o.label_if(l.runs(w.m[0] & w.m[1]).len() > 2, "intersection in three or more pieces");
            let before = w.t.clone();
            for (i, j) in [(0, 1), (1, 0), (0, 0)] {
                let (a, b, x, y) = (&w.t[i], &w.t[j], w.m[i], w.m[j]);
                let d = |op: &str| format!("{op} of {:?} and {:?}", l.list(x), l.list(y));
                tree_points(&d("union"), &l, &a.union(b), x | y)?;
                tree_points(&d("intersection"), &l, &a.intersect(b), x & y)?;
                tree_points(&d("difference"), &l, &a.minus(b), x & !y)?;
            }
            for i in 0..2 {
                let (t, m) = (&w.t[i], w.m[i]);
                let d = format!("{:?}", l.list(m));
                tree_points(&format!("complement of {d}"), &l, &t.complement(), l.full & !m)?;
                if t != &before[i] { return err(format!("an operation changed its operand {d}")); }
                tree_points(&format!("the tree {d}"), &l, t, m)?;
                eq(&format!("{d}: is_empty()"), t.is_empty(), m == 0)?;
                eq(&format!("{d}: is_full()"), t.is_full(), m == l.full)?;
                let runs = l.runs(m);
                eq(&format!("{d}: lower_bound()"), t.lower_bound(), runs.first().map(|r| l.lower(r.0)))?;
                eq(&format!("{d}: upper_bound()"), t.upper_bound(), runs.last().map(|r| l.upper(r.1)))?;
                let h = l.hull(m);
                l.raw_is(&format!("{d}: enclose()"), &t.enclose(), h)?;
                let mut cl = h;
                if let (Some(a), Some(b)) = (runs.first(), runs.last()) {
                    if a.0 > 0 && a.0 % 2 == 0 { cl |= 1 << (a.0 - 1); }
                    if b.1 < 2 * l.n && b.1 % 2 == 0 { cl |= 1 << (b.1 + 1); }
                }
                l.raw_is(&format!("{d}: closure()"), &t.closure(), cl)?;
            }
            Ok(())
        }
        with_dty!(c.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for w in wide::fixed(4100) { if !k.turn(|| TwoTrees { p: no_prog(), wide: Some(w) }) { return; } }
        tree_pairs(t, k)
    }
}
fn no_prog() -> TProg { TProg { ty: DTy::I32, n: 1, steps: vec![] } }
fn tree_pairs(t: bool, k: &mut Sink<C22>) {
    for n in 1..if t { 5usize } else { 4 } {
        let top: Mask = 1 << (2 * n + 1);
        for a in 0..top { for b in 0..top {
            if !k.turn(|| TwoTrees { p: TProg { ty: DTYS[((a + b) % 6) as usize], n: n as u8, steps: vec![TStep::Collect(0, divs_of(n, a)), TStep::Collect(1, divs_of(n, b))] }, wide: None }) { return; }
        } }
    }
}

// ---------------------------------------------------------------- C23
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TList { pub p: TProg, pub sched: Vec<u8>, pub keys: Vec<u8>, #[serde(default, skip_serializing_if = "Option::is_none")] pub wide: Option<WCase> }
pub struct C23;
impl Prop for C23 {
    type Case = TList;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a tree reached by a program (as C22), a schedule of front/back steps and a shuffle; listing against the maximal runs of the mask, both directions interleaved, borrowed and owned, equality and hash against trees collected from the pieces in shuffled order with overlaps; trees of up to 4,100 intervals; exhaustively every tree over 4 positions with every schedule of 5 steps; non-trivial: at least two pieces";
    const N: (u64, u64) = (760_000, 24_200_000);
    fn strategy(t: bool) -> BoxedStrategy<TList> {
        let p = if t { tprog(40, MAXN) } else { tprog(16, 14) };
        let small = (p, iters::schedule(24), proptest::collection::vec(any::<u8>(), 0..12)).prop_map(|(p, sched, keys)| TList { p, sched, keys, wide: None });
        let many = (wide::wcase(), iters::schedule(200)).prop_map(|(w, sched)| TList { p: no_prog(), sched, keys: vec![], wide: Some(w) });
        prop_oneof![4_000 => small, 1 => many].boxed()
    }
    fn check(c: &TList, o: &mut Obs) -> Result<(), String> {
        if let Some(w) = &c.wide { return with_wty!(w.ty, wide_list(w, &c.sched, o)); }
        fn go<T: Dense>(c: &TList, o: &mut Obs) -> Result<(), String> {
            let (l, w) = run_prog::<T>(&c.p);
            for i in 0..2 {
                let (t, m) = (&w.t[i], w.m[i]);
                let want = l.list(m);
                o.nt(want.len() >= 2);
                o.label_if(want.len() >= 10, "ten or more pieces");
                o.label_if(l.runs(m).windows(2).any(|w| w[0].1 + 2 == w[1].0 && w[1].0 % 2 == 0), "pieces around one excluded point");
                let d = format!("tree {want:?}");
                iters::whole(&format!("{d}: interval_iter()"), || t.interval_iter(), &want, &c.sched, 0)?;
                iters::whole(&format!("{d}: into_iter()"), || t.clone().into_iter(), &want, &c.sched, 1)?;
                iters::both_ends(&format!("{d}: interval_iter()"), t.interval_iter(), &want, &c.sched)?;
                iters::both_ends(&format!("{d}: into_iter()"), t.clone().into_iter(), &want, &c.sched)?;
                // Rebuilt from its pieces in another order, with some repeated.
                let mut ks: Vec<(u8, RawInterval<T>)> = want.iter().enumerate()
                    .map(|(j, r)| (c.keys.get(j).copied().unwrap_or(0), r.clone())).collect();
                if let Some(r) = want.first() { ks.push((128, r.clone())); }
                if let Some(r) = want.last() { ks.push((3, r.intersect(r))); }
                ks.push((77, RawInterval::Empty));
                ks.sort_by_key(|k| k.0);
                let v: Vec<RawInterval<T>> = ks.into_iter().map(|k| k.1).collect();
                let mut r: Vec<(&str, TineTree<T>)> = vec![("collect()", v.clone().into_iter().collect()), ("collect(), one at a time", iters::lazily(&v).collect()), ("From<iterator>, one at a time", TineTree::from(iters::lazily(&v))), ("From<iterator>", TineTree::from(v.into_iter())),
                    ("clone()", t.clone()), ("interval_iter().collect()", t.interval_iter().take(200).collect()),
                    ("reversed", t.interval_iter().rev().take(200).collect())];
                if want.len() == 1 { r.push(("From<RawInterval>", TineTree::from(want[0].clone()))); r.push(("from_raw_interval", TineTree::from_raw_interval(want[0].clone()))); }
                if want.is_empty() { r.push(("new()", TineTree::new())); r.push(("default()", TineTree::default())); r.push(("from_raw_interval(Empty)", TineTree::from_raw_interval(RawInterval::Empty))); }
                for (how, u) in r {
                    if let Some(e) = unlike(t, &u) { return err(format!("{d} is {e} from its rebuild by {how}: {t:?} / {u:?}")); }
                    tree_points(&format!("{d} rebuilt by {how}"), &l, &u, m)?;
                }
            }
            for i in 0..2 { if let Some(e) = cloned(&w.t[i], [w.t[1 - i].clone(), TineTree::new()]) { return err(format!("{:?} is {e}", w.t[i])); } }
            if !compares(&w.t[0], &w.t[1], w.m[0] == w.m[1]) { return err(format!("{:?} == {:?} is {}", w.t[0], w.t[1], w.t[0] == w.t[1])); }
            Ok(())
        }
        with_dty!(c.p.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for (i, w) in wide::fixed(4100).into_iter().enumerate() {
            let sched = iters::long_schedules().swap_remove(i % 3 + 1)[1..].to_vec();
            if !k.turn(|| TList { p: no_prog(), sched, keys: vec![], wide: Some(w) }) { return; }
        }
        for n in 1..if t { 6usize } else { 5 } {
            let top: Mask = 1 << (2 * n + 1);
            for a in 0..top { for bits in 0..32u8 {
                let ty = DTYS[((a + bits as Mask) % 6) as usize];
                if !k.turn(|| TList { p: TProg { ty, n: n as u8, steps: vec![TStep::Collect(0, divs_of(n, a)), TStep::Collect(1, divs_of(n, !a & (top - 1)))] },
                    sched: (0..5).map(|b| bits >> b & 1).collect(), keys: vec![bits, 255 - bits, 40, bits ^ 9], wide: None }) { return; }
            } }
        }
    }
}

// ---------------------------------------------------------------- very many intervals
const MANY: &str = "hundreds of intervals";
fn wide_bulk<T: wide::Wide>(w: &WCase, o: &mut Obs) -> Result<(), String> {
    o.label(MANY);
    o.nt(true);
    let mut list = w.a.list();
    list.extend(w.b.list());
    list.extend(w.edits.iter().map(|e| e.1));
    // And as many nested ones, for the intersection.
    let nested: Vec<wide::WIv> = (0..list.len() as u16).map(|i| wide::WIv { shape: 2 + (i % 4) as u8, a: i * 3 % 2000, b: 8191 - i * 5 % 3000 }).collect();
    for mut v in [list, nested] { for turn in 0..2 {
        let (rs, ms): (Vec<RawInterval<T>>, Vec<_>) = v.iter().map(|i| i.build::<T>()).unzip();
        let what = |f: &str| format!("{f} of {} intervals{}", rs.len(), if turn == 1 { ", reversed" } else { "" });
        let all = Set::from_ranges(ms.iter().flatten().copied().collect());
        let com = ms.iter().fold(Set::full(wide::LAST), |a, b| a.intersect(&Set::range(*b)));
        let one = |s: Option<(u128, u128)>| s.map_or(RawInterval::Empty, wide::interval);
        eq(&what("intersect_all"), RawInterval::intersect_all(rs.clone().into_iter()), one(com.hull()))?;
        eq(&what("enclose_all"), RawInterval::enclose_all(iters::lazily(&rs)), one(all.hull()))?;
        let got: Vec<_> = if turn == 0 { RawInterval::union_all(rs.clone().into_iter()).take(rs.len() + 4).collect() } else { RawInterval::union_all(iters::lazily(&rs)).take(rs.len() + 4).collect() };
        let mut cs = vec![];
        for r in &got { cs.extend(wide::cells(r).map_err(|e| format!("{}: {e}", what("union_all")))?); }
        if Set::from_ranges(cs) != all { return err(format!("{}: covers the wrong points", what("union_all"))); }
        v.reverse();
    } }
    Ok(())
}
fn wide_edits<T: wide::Wide>(w: &WCase, o: &mut Obs) -> Result<(), String> {
    o.label(MANY);
    o.nt(!w.edits.is_empty());
    let (mut t, mut m) = w.a.tree::<T>();
    wide::tree_is(&|| "the starting tree".into(), &t, &m, &[], false)?;
    let more: Vec<(u8, wide::WIv)> = w.b.list().into_iter().enumerate().map(|(i, v)| (if w.b.how % 2 == 0 { (i % 2 * 2) as u8 } else { 0 }, v)).collect();
    for (i, (kind, iv)) in w.edits.iter().chain(more.iter().take(200)).enumerate() {
        let (r, c) = iv.build::<T>();
        let c = Set::range(c);
        match kind { 0 => { t.union_in_place(&r); m = m.union(&c); } 1 => { t.intersect_in_place(&r); m = m.intersect(&c); } _ => { t.minus_in_place(&r); m = m.minus(&c, wide::LAST); } }
        if i < w.edits.len() || i % 40 == 0 { wide::tree_is(&|| format!("after step {i}, {} {r:?}", ["union", "intersection", "difference"][*kind as usize % 3]), &t, &m, &[&c], false)?; }
    }
    wide::tree_is(&|| "after the last step".into(), &t, &m, &[], false)
}
fn wide_two<T: wide::Wide>(w: &WCase) -> [(TineTree<T>, Set); 2] {
    let (mut t, mut m) = w.a.tree::<T>();
    for (kind, iv) in &w.edits {
        let (r, c) = iv.build::<T>();
        let c = Set::range(c);
        match kind { 0 => { t.union_in_place(&r); m = m.union(&c); } 1 => { t.intersect_in_place(&r); m = m.intersect(&c); } _ => { t.minus_in_place(&r); m = m.minus(&c, wide::LAST); } }
    }
    [(t, m), w.b.tree::<T>()]
}
fn wide_ops<T: wide::Wide>(w: &WCase, o: &mut Obs) -> Result<(), String> {
    o.label(MANY);
    o.nt(true);
    let two = wide_two::<T>(w);
    let keep: Vec<TineTree<T>> = two.iter().map(|x| x.0.clone()).collect();
    for (i, j) in [(0, 1), (1, 0), (0, 0)] {
        let ((a, x), (b, y)) = (&two[i], &two[j]);
        let d = |op: &str| format!("{op} of trees of {} and {} intervals", x.0.len(), y.0.len());
        wide::tree_is(&|| d("union"), &a.union(b), &x.union(y), &[x, y], false)?;
        wide::tree_is(&|| d("intersection"), &a.intersect(b), &x.intersect(y), &[x, y], false)?;
        wide::tree_is(&|| d("difference"), &a.minus(b), &x.minus(y, wide::LAST), &[x, y], false)?;
    }
    for ((t, m), k) in two.iter().zip(&keep) {
        let d = || format!("a tree of {} intervals", m.0.len());
        wide::tree_is(&|| format!("complement of {}", d()), &t.complement(), &m.complement(wide::LAST), &[m], false)?;
        if t != k { return err(format!("an operation changed its operand, {}", d())); }
        wide::tree_is(&d, t, m, &[], false)?;
        eq(&format!("{}: is_empty()", d()), t.is_empty(), m.is_empty())?;
        eq(&format!("{}: is_full()", d()), t.is_full(), m == &Set::full(wide::LAST))?;
        eq(&format!("{}: enclose()", d()), t.enclose(), m.hull().map_or(RawInterval::Empty, wide::interval))?;
        eq(&format!("{}: closure()", d()), t.closure(), m.hull().map_or(RawInterval::Empty, |(l, h)| wide::interval((l - u128::from(l > 0 && l % 2 == 0), h + u128::from(h < wide::LAST && h % 2 == 0)))))?;
        eq(&format!("{}: lower_bound()", d()), t.lower_bound(), m.0.first().and_then(|r| wide::interval::<T>(*r).lower_bound()))?;
        eq(&format!("{}: upper_bound()", d()), t.upper_bound(), m.0.last().and_then(|r| wide::interval::<T>(*r).upper_bound()))?;
    }
    Ok(())
}
fn wide_list<T: wide::Wide>(w: &WCase, sched: &[u8], o: &mut Obs) -> Result<(), String> {
    o.label(MANY);
    o.nt(true);
    let two = wide_two::<T>(w);
    for (t, m) in &two {
        let want: Vec<RawInterval<T>> = m.0.iter().map(|r| wide::interval(*r)).collect();
        let d = format!("a tree of {} intervals", want.len());
        iters::whole(&format!("{d}: interval_iter()"), || t.interval_iter(), &want, sched, want.len() / 2)?;
        iters::whole(&format!("{d}: into_iter()"), || t.clone().into_iter(), &want, sched, want.len() / 3)?;
        iters::both_ends(&format!("{d}: interval_iter()"), t.interval_iter(), &want, sched)?;
        iters::both_ends(&format!("{d}: into_iter()"), t.clone().into_iter(), &want, sched)?;
        let n = want.len();
        let mixed: Vec<RawInterval<T>> = (0..n).map(|i| want[i * if n % 5 == 0 { 1 } else { 5 } % n].clone()).collect();
        let made: [(&str, TineTree<T>); 4] = [("collect()", want.iter().cloned().collect()), ("collect() of a mixed order", mixed.iter().cloned().collect()),
            ("collect(), one at a time", iters::lazily(&mixed).collect()), ("From<iterator> of the reverse", TineTree::from(t.interval_iter().rev().take(n + 1)))];
        for (how, u) in &made {
            wide::tree_is(&|| format!("{d} rebuilt by {how}"), u, m, &[], true)?;
            if let Some(e) = unlike(u, t) { return err(format!("{d} is {e} from its rebuild by {how}")); }
        }
    }
    if !compares(&two[0].0, &two[1].0, two[0].1 == two[1].1) { return err("== of two trees does not follow their points".into()); }
    Ok(())
}
