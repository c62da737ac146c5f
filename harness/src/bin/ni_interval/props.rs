//! C01-C06, C14, C15: intervals over finite point types.
use nicheck::fin::*;
use nicheck::iters;
use nicheck::run::{Obs, Prop, Sink};
use nicheck::with_ty;
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type Rng2 = Option<(u128, u128)>;


/// An interval expression: a construction recipe, or an operation on other intervals.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ex {
    Base(Iv),
    Intersect(Box<Ex>, Box<Ex>), Enclose(Box<Ex>, Box<Ex>),
    UnionPiece(Box<Ex>, Box<Ex>, u8), MinusPiece(Box<Ex>, Box<Ex>, u8), ComplementPiece(Box<Ex>, u8),
    Closure(Box<Ex>), NonEmpty(Box<Ex>), Rebuilt(Box<Ex>), Copied(Box<Ex>),
}

pub fn ex(depth: u32) -> BoxedStrategy<Ex> {
    iv_ne().prop_map(Ex::Base).prop_recursive(depth, 12, 2, |inner| {
        let b = inner.clone().prop_map(Box::new);
        prop_oneof![
            4 => (b.clone(), b.clone()).prop_map(|(x, y)| Ex::Intersect(x, y)),
            2 => (b.clone(), b.clone()).prop_map(|(x, y)| Ex::Enclose(x, y)),
            2 => (b.clone(), b.clone(), 0u8..3).prop_map(|(x, y, k)| Ex::UnionPiece(x, y, k)),
            3 => (b.clone(), b.clone(), 0u8..3).prop_map(|(x, y, k)| Ex::MinusPiece(x, y, k)),
            2 => (b.clone(), 0u8..3).prop_map(|(x, k)| Ex::ComplementPiece(x, k)),
            1 => b.clone().prop_map(Ex::Closure),
            1 => b.clone().prop_map(Ex::NonEmpty),
            1 => b.clone().prop_map(Ex::Rebuilt),
            1 => b.prop_map(Ex::Copied),
        ]
    }).boxed()
}

/// Reads an interval's index range off its reported bounds.
pub fn range_of<T: Fin>(i: &Interval<T>) -> Result<Rng2, String> {
    match (i.lower_bound(), i.upper_bound()) {
        (None, None) => Ok(None),
        (Some(Bound::Include(l)), Some(Bound::Include(u))) if l <= u => Ok(Some((l.ix(), u.ix()))),
        (l, u) => Err(format!("{} reports bounds {:?} .. {:?}: not normalized", show(i), l, u)),
    }
}

fn meet(a: Rng2, b: Rng2) -> Rng2 {
    let ((a, b), (c, d)) = (a?, b?);
    let (l, h) = (a.max(c), b.min(d));
    if l <= h { Some((l, h)) } else { None }
}
fn hull(a: Rng2, b: Rng2) -> Rng2 {
    match (a, b) { (None, x) | (x, None) => x, (Some((a, b)), Some((c, d))) => Some((a.min(c), b.max(d))) }
}

impl Ex {
    /// Evaluates the expression, with the range it must cover where that does not depend on
    /// the order in which pieces are listed (otherwise the range it reports).
    pub fn eval<T: Fin>(&self, cfg: &Cfg) -> Result<(Interval<T>, Rng2), String> {
        Ok(match self {
            Ex::Base(i) => i.build(cfg),
            Ex::Intersect(a, b) => {
                let ((x, mx), (y, my)) = (a.eval::<T>(cfg)?, b.eval::<T>(cfg)?);
                (x.intersect(&y), meet(mx, my))
            }
            Ex::Enclose(a, b) => {
                let ((x, mx), (y, my)) = (a.eval::<T>(cfg)?, b.eval::<T>(cfg)?);
                (x.enclose(&y), hull(mx, my))
            }
            Ex::UnionPiece(a, b, k) => {
                let ((x, _), (y, _)) = (a.eval::<T>(cfg)?, b.eval::<T>(cfg)?);
                let p = x.union(&y).nth(*k as usize).unwrap_or_else(Interval::empty);
                let r = range_of(&p)?;
                (p, r)
            }
            Ex::MinusPiece(a, b, k) => {
                let ((x, _), (y, _)) = (a.eval::<T>(cfg)?, b.eval::<T>(cfg)?);
                let p = x.minus(&y).nth(*k as usize).unwrap_or_else(Interval::empty);
                let r = range_of(&p)?;
                (p, r)
            }
            Ex::ComplementPiece(a, k) => {
                let (x, _) = a.eval::<T>(cfg)?;
                let p = x.complement().nth(*k as usize).unwrap_or_else(Interval::empty);
                let r = range_of(&p)?;
                (p, r)
            }
            Ex::Closure(a) => { let (x, m) = a.eval::<T>(cfg)?; (x.closure(), m) }
            Ex::NonEmpty(a) => {
                let (x, m) = a.eval::<T>(cfg)?;
                (x.into_non_empty().unwrap_or_else(Interval::empty), m)
            }
            Ex::Rebuilt(a) => {
                let (x, m) = a.eval::<T>(cfg)?;
                let y = match (x.lower_bound(), x.upper_bound()) { (Some(l), Some(u)) => Interval::new(l, u), _ => Interval::empty() };
                (y, m)
            }
            Ex::Copied(a) => { let (x, m) = a.eval::<T>(cfg)?; (x.clone(), m) }
        })
    }
}

/// The interval of an index range, built in every direct way there is.
pub fn rebuilds<T: Fin>(m: Rng2) -> Vec<(&'static str, Interval<T>)> {
    let p = |x: u128| T::at(x);
    let Some((l, h)) = m else {
        let mut v = vec![("empty()", Interval::empty()), ("default()", Interval::default()),
            ("open(max, min)", Interval::open(T::at(T::LAST), T::at(0))),
            ("open(min, min)", Interval::open(T::at(0), T::at(0))),
            ("unbounded_up_to(min)", Interval::unbounded_up_to(T::at(0))),
            ("unbounded_up_from(max)", Interval::unbounded_up_from(T::at(T::LAST))),
            ("..min", Interval::from(..T::at(0)))];
        if T::LAST > 0 {
            v.push(("open(min, min+1)", Interval::open(T::at(0), T::at(1))));
            v.push(("closed(max, min)", Interval::closed(T::at(T::LAST), T::at(0))));
            v.push(("open(max-1, max)", Interval::open(T::at(T::LAST - 1), T::at(T::LAST))));
        }
        return v;
    };
    let mut v = vec![
        ("closed", Interval::closed(p(l), p(h))),
        ("new(include, include)", Interval::new(Bound::Include(p(l)), Bound::Include(p(h)))),
        ("raw closed", Interval::from(RawInterval::closed(p(l), p(h)))),
        ("from(l) ^ to(h)", Interval::unbounded_from(p(l)).intersect(&Interval::unbounded_to(p(h)))),
        ("point(l) enclose point(h)", Interval::point(p(l)).enclose(&Interval::point(p(h)))),
        ("point(h) enclose point(l)", Interval::point(p(h)).enclose(&Interval::point(p(l)))),
    ];
    if l == h {
        v.push(("point", Interval::point(p(l))));
        v.push(("from point", Interval::from(p(l))));
        v.push(("left_open(p, p)", Interval::left_open(p(l), p(l))));
        v.push(("right_closed(p, p)", Interval::right_closed(p(l), p(l))));
    }
    if l > 0 {
        v.push(("left_open", Interval::left_open(p(l - 1), p(h))));
        v.push(("raw left open", Interval::from(RawInterval::LeftOpen(p(l - 1), p(h)))));
        if h < T::LAST {
            v.push(("open", Interval::open(p(l - 1), p(h + 1))));
            v.push(("raw open", Interval::from(RawInterval::Open(p(l - 1), p(h + 1)))));
        }
    }
    if h < T::LAST {
        v.push(("right_open", Interval::right_open(p(l), p(h + 1))));
        v.push(("range", Interval::from(p(l)..p(h + 1))));
    }
    if l == 0 {
        v.push(("unbounded_to", Interval::unbounded_to(p(h))));
        v.push(("..=h", Interval::from(..=p(h))));
        if h < T::LAST { v.push(("unbounded_up_to", Interval::unbounded_up_to(p(h + 1)))); }
    }
    if h == T::LAST {
        v.push(("unbounded_from", Interval::unbounded_from(p(l))));
        v.push(("l..", Interval::from(p(l)..)));
        if l > 0 { v.push(("unbounded_up_from", Interval::unbounded_up_from(p(l - 1)))); }
        if l == 0 {
            v.push(("full", Interval::full()));
            v.push(("..", Interval::from(..)));
            v.push(("new(infinite, infinite)", Interval::new(Bound::Infinite, Bound::Infinite)));
        }
    }
    v
}

/// Every query that takes no argument, as one comparable value.
fn queries<T: Fin>(i: &Interval<T>) -> String {
    format!("{:?}", (
        (i.lower_bound(), i.upper_bound(), i.infimum(), i.supremum(), i.is_empty(), i.is_degenerate(), i.is_proper()),
        (i.is_open(), i.is_left_open(), i.is_right_open(), i.is_half_open(), i.is_closed(), i.is_left_closed(), i.is_right_closed(), i.is_half_closed()),
        (i.is_bounded(), i.is_left_bounded(), i.is_right_bounded(), i.is_half_bounded(), i.clone().into_non_empty().is_some()),
    ))
}

fn r_label(o: &mut Obs, last: u128, m: Rng2) {
    match m {
        None => o.label("empty"),
        Some((l, h)) => {
            o.label_if(l == h, "point");
            o.label_if(l < h, "proper");
            o.label_if(l == 0, "at minimum");
            o.label_if(h == last, "at maximum");
            o.label_if(l == 0 && h == last, "full");
        }
    }
}

/// The points of an interval through its iterator: all of them when few, else both ends.
fn iter_is<T: Fin>(what: &str, i: &Interval<T>, m: Rng2, sched: &[u8]) -> Result<(), String> {
    let n = m.map_or(0, |(l, h)| (h - l).saturating_add(1));
    let (sched, long) = iters::unmarked(sched);
    if n <= if long { iters::WHOLE_MAX } else { iters::LONG as u128 } {
        let k = if long { n as usize / 3 * 2 } else { 0 };
        let want: Vec<T> = m.map_or(vec![], |(l, h)| (l..=h).map(T::at).collect());
        iters::both_ends(&format!("{what}: iter()"), i.iter(), &want, sched)?;
        iters::both_ends(&format!("{what}: (&i).into_iter()"), i.into_iter(), &want, sched)?;
        iters::both_ends(&format!("{what}: into_iter()"), i.clone().into_iter(), &want, sched)?;
        iters::whole(&format!("{what}: iter()"), || i.iter(), &want, sched, k)?;
        iters::whole(&format!("{what}: into_iter()"), || i.clone().into_iter(), &want, sched, k + 1)?;
        iters::ordered(&format!("{what}: iter()"), i.iter(), &want, sched)?;
        iters::ordered(&format!("{what}: into_iter()"), i.clone().into_iter(), &want, sched)
    } else {
        let (l, h) = m.expect("non-empty");
        let k = iters::reach(sched) as u128;
        let front: Vec<T> = (0..k).map(|d| T::at(l + d)).collect();
        let back: Vec<T> = (0..k).rev().map(|d| T::at(h - d)).collect();
        iters::ends_of_long(&format!("{what}: iter()"), i.iter(), n, &front, &back, sched)?;
        iters::ends_of_long(&format!("{what}: into_iter()"), i.clone().into_iter(), n, &front, &back, sched)
    }
}

// ---------------------------------------------------------------- C01
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct OneIv { pub cfg: Cfg, pub iv: Iv }
pub struct C01;
impl Prop for C01 {
    type Case = OneIv;
    const ID: &'static str = "C01";
    const RULE: &'static str = "one interval recipe (every constructor and conversion) over one of 18 finite point types, coordinates near the minimum, maximum, middle or anywhere; non-trivial: bounds given (not empty()/full()) ; oracle: index arithmetic, membership probed at every point of types with <=256 values, else around every bound";
    const N: (u64, u64) = (3_780_000, 119_300_000);
    fn strategy(_t: bool) -> BoxedStrategy<OneIv> { (cfg(), iv()).prop_map(|(cfg, iv)| OneIv { cfg, iv }).boxed() }
    fn check(c: &OneIv, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &OneIv, o: &mut Obs) -> Result<(), String> {
            let (i, m) = c.iv.build::<T>(&c.cfg);
            r_label(o, T::LAST, m);
            o.nt(!c.iv.coords().is_empty());
            let what = format!("{:?}", c.iv);
            // Membership first: the property is about points.
            let s = Set::range(m);
            let extra: Vec<u128> = c.iv.coords().into_iter().map(|x| c.cfg.ix::<T>(x)).collect();
            for x in probes::<T>(&[&s], &extra) {
                let got = i.contains(&T::at(x));
                if got != s.has(x) { return Err(format!("{what} gives {}: contains({:?}) = {got}, expected {}", show(&i), T::at(x), s.has(x))); }
            }
            iv_is(&what, &i, m)?;
            if m.map_or(0, |(l, h)| h - l) <= 32 { iter_is(&what, &i, m, &[])?; }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for (cfg, n) in small_cfgs() { for iv in all_ivs(n) { if !k.turn(|| OneIv { cfg, iv }) { return; } } }
    }
}

// ---------------------------------------------------------------- C02
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TwoEx { pub cfg: Cfg, pub a: Ex, pub b: Ex }
pub struct C02;
impl Prop for C02 {
    type Case = TwoEx;
    const ID: &'static str = "C02";
    const RULE: &'static str = "two interval expressions (constructors, and pieces/results of set operations, nested); each compared with up to 16 direct rebuilds of its point set and with each other, by ==, hash and all queries; non-trivial: an expression that is not a bare closed()/empty()";
    const N: (u64, u64) = (770_000, 24_300_000);
    fn strategy(_t: bool) -> BoxedStrategy<TwoEx> { (cfg(), ex(3), ex(2)).prop_map(|(cfg, a, b)| TwoEx { cfg, a, b }).boxed() }
    fn check(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
            let (a, ma) = c.a.eval::<T>(&c.cfg)?;
            let (b, mb) = c.b.eval::<T>(&c.cfg)?;
            r_label(o, T::LAST, ma);
            o.nt(!matches!(c.a, Ex::Base(Iv::Closed(..) | Iv::Empty)));
            o.label_if(ma == mb, "same points");
            for (e, i, m) in [(&c.a, &a, ma), (&c.b, &b, mb)] {
                let what = format!("{:?} = {}", e, show(i));
                iv_is(&what, i, m)?;
                if let Some(e) = cloned(i, [a.clone(), b.clone(), Interval::full()]) { return Err(format!("{what} is {e}")); }
                let (h, q) = (hash(i), queries(i));
                for (how, r) in rebuilds::<T>(m) {
                    if let Some(e) = unlike(i, &r) { return Err(format!("{what} is {e} from {how} = {} with the same points", show(&r))); }
                    if hash(&r) != h { return Err(format!("{what} hashes differently from {how} = {}", show(&r))); }
                    if queries(&r) != q { return Err(format!("{what} answers {q}, but {how} = {} answers {}", show(&r), queries(&r))); }
                }
            }
            if !compares(&a, &b, ma == mb) {
                return Err(format!("{:?} = {} and {:?} = {}: equality is {}, expected {}", c.a, show(&a), c.b, show(&b), a == b, ma == mb));
            }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for (cfg, n) in small_cfgs() {
            let rs = all_ranges(n);
            for iv in all_ivs(n) {
                // Against a neighbour in the list of ranges, so that inequality is seen too.
                let b = Ex::Base(rs[(n as usize * 5 + iv.coords().iter().sum::<Coord>() as usize) % rs.len()].clone());
                if !k.turn(|| TwoEx { cfg, a: Ex::Base(iv), b }) { return; }
            }
            for a in &rs { for b in &rs {
                let (x, y) = (Box::new(Ex::Base(a.clone())), Box::new(Ex::Base(b.clone())));
                for e in [Ex::Intersect(x.clone(), y.clone()), Ex::Enclose(x.clone(), y.clone()), Ex::UnionPiece(x.clone(), y.clone(), 0),
                    Ex::UnionPiece(x.clone(), y.clone(), 1), Ex::MinusPiece(x.clone(), y.clone(), 0), Ex::MinusPiece(x.clone(), y.clone(), 1),
                    Ex::ComplementPiece(x.clone(), 0), Ex::ComplementPiece(x.clone(), 1)] {
                    if !k.turn(|| TwoEx { cfg, a: e, b: Ex::Base(b.clone()) }) { return; }
                }
            } }
        }
    }
}

// ---------------------------------------------------------------- C03
/// The pieces of an operation: well formed, disjoint, together the wanted set.
fn pieces<T: Fin>(what: &str, it: impl Iterator<Item = Interval<T>>, want: &Set) -> Result<(), String> {
    let v: Vec<Interval<T>> = it.take(16).collect();
    if v.len() > 8 { return Err(format!("{what}: yields {} or more pieces", v.len())); }
    let mut rs = vec![];
    for p in &v {
        let r = range_of(p).map_err(|e| format!("{what}: piece {e}"))?;
        iv_is(&format!("{what}: piece"), p, r)?;
        if p != &(match r { None => Interval::empty(), Some((l, h)) => Interval::closed(T::at(l), T::at(h)) }) {
            return Err(format!("{what}: piece {} is not the normalized interval of its points", show(p)));
        }
        rs.extend(r);
    }
    for (i, a) in rs.iter().enumerate() { for b in &rs[..i] {
        if meet(Some(*a), Some(*b)).is_some() { return Err(format!("{what}: pieces {:?} overlap", v)); }
    } }
    let got = Set::from_ranges(rs);
    if &got != want { return Err(format!("{what}: pieces {} cover index ranges {:?}, expected {:?}", show(&v), got.0, want.0)); }
    // And by direct membership.
    for x in probes::<T>(&[want], &[]) {
        let n = v.iter().filter(|p| p.contains(&T::at(x))).count();
        if n != want.has(x) as usize { return Err(format!("{what}: {:?} is in {n} pieces of {}, expected {}", T::at(x), show(&v), want.has(x) as u8)); }
    }
    Ok(())
}
fn two_labels(o: &mut Obs, a: Rng2, b: Rng2) {
    o.nt(a.is_some() && b.is_some());
    if let (Some((l, h)), Some((p, q))) = (a, b) {
        let d = meet(a, b).is_none();
        o.label_if(!d, "overlap");
        o.label_if(d, "disjoint");
        o.label_if(d && (h.checked_add(1) == Some(p) || q.checked_add(1) == Some(l)), "consecutive");
        o.label_if(a == b, "same points");
        o.label_if(h == p || q == l, "share one end");
        o.label_if((l < p && q < h) || (p < l && h < q), "nested");
    } else { o.label("one is empty"); }
}
pub struct C03;
impl Prop for C03 {
    type Case = TwoEx;
    const ID: &'static str = "C03";
    const RULE: &'static str = "two interval expressions; complement, union, intersection, difference both ways and the overlap test against index-range algebra; non-trivial: both non-empty";
    const N: (u64, u64) = (1_330_000, 42_000_000);
    fn strategy(_t: bool) -> BoxedStrategy<TwoEx> { (cfg(), ex(1), ex(1)).prop_map(|(cfg, a, b)| TwoEx { cfg, a, b }).boxed() }
    fn check(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
            let (a, ma) = c.a.eval::<T>(&c.cfg)?;
            let (b, mb) = c.b.eval::<T>(&c.cfg)?;
            two_labels(o, ma, mb);
            let (sa, sb) = (Set::range(ma), Set::range(mb));
            let (ta, tb) = (show(&a), show(&b));
            pieces(&format!("{ta}.complement()"), a.complement(), &sa.complement(T::LAST))?;
            pieces(&format!("{ta}.union({tb})"), a.union(&b), &sa.union(&sb))?;
            pieces(&format!("{tb}.union({ta})"), b.union(&a), &sa.union(&sb))?;
            pieces(&format!("{ta}.minus({tb})"), a.minus(&b), &sa.minus(&sb, T::LAST))?;
            pieces(&format!("{tb}.minus({ta})"), b.minus(&a), &sb.minus(&sa, T::LAST))?;
            pieces(&format!("{ta}.minus(itself)"), a.minus(&a), &Set::empty())?;
            let m = meet(ma, mb);
            pieces(&format!("{ta}.intersect({tb})"), std::iter::once(a.intersect(&b)), &Set::range(m))?;
            pieces(&format!("{tb}.intersect({ta})"), std::iter::once(b.intersect(&a)), &Set::range(m))?;
            if a.intersects(&b) != m.is_some() || b.intersects(&a) != m.is_some() {
                return Err(format!("{ta} intersects {tb}: got {}/{}, expected {}", a.intersects(&b), b.intersects(&a), m.is_some()));
            }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) { pairs(k) }
}
fn pairs<P: Prop<Case = TwoEx>>(k: &mut Sink<P>) {
    for (cfg, n) in small_cfgs() {
        let rs = all_ranges(n);
        for a in &rs { for b in &rs { if !k.turn(|| TwoEx { cfg, a: Ex::Base(a.clone()), b: Ex::Base(b.clone()) }) { return; } } }
        if n <= 3 { // Every recipe against every recipe.
            let v = all_ivs(n);
            for a in &v { for b in &v { if !k.turn(|| TwoEx { cfg, a: Ex::Base(a.clone()), b: Ex::Base(b.clone()) }) { return; } } }
        }
    }
}

// ---------------------------------------------------------------- C04
pub struct C04;
impl Prop for C04 {
    type Case = TwoEx;
    const ID: &'static str = "C04";
    const RULE: &'static str = "two interval expressions; enclosure both ways against the index hull, closure against the interval itself; non-trivial: both non-empty";
    const N: (u64, u64) = (2_110_000, 66_700_000);
    fn strategy(_t: bool) -> BoxedStrategy<TwoEx> { (cfg(), ex(1), ex(1)).prop_map(|(cfg, a, b)| TwoEx { cfg, a, b }).boxed() }
    fn check(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
            let (a, ma) = c.a.eval::<T>(&c.cfg)?;
            let (b, mb) = c.b.eval::<T>(&c.cfg)?;
            two_labels(o, ma, mb);
            let (ab, ba) = (a.enclose(&b), b.enclose(&a));
            iv_is(&format!("{}.enclose({})", show(&a), show(&b)), &ab, hull(ma, mb))?;
            iv_is(&format!("{}.enclose({})", show(&b), show(&a)), &ba, hull(ma, mb))?;
            if ab != ba { return Err(format!("enclose of {} and {} depends on the order: {} / {}", show(&a), show(&b), show(&ab), show(&ba))); }
            if ma.is_none() && ab != b { return Err(format!("enclosing {} with an empty interval gives {}", show(&b), show(&ab))); }
            if a.enclose(&a) != a { return Err(format!("{} enclosed with itself is {}", show(&a), show(&a.enclose(&a)))); }
            for (i, m) in [(&a, ma), (&b, mb), (&ab, hull(ma, mb))] {
                iv_is(&format!("{}.closure()", show(i)), &i.closure(), m)?;
                if &i.closure() != i { return Err(format!("closure of {} is {}", show(i), show(&i.closure()))); }
            }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) { pairs(k) }
}

// ---------------------------------------------------------------- C05
pub struct C05;
impl Prop for C05 {
    type Case = TwoEx;
    const ID: &'static str = "C05";
    const RULE: &'static str = "two interval expressions (the second also re-placed next to the first); all queries against the index range, adjacency against equal end points; non-trivial: first non-empty";
    const N: (u64, u64) = (2_180_000, 68_700_000);
    fn strategy(_t: bool) -> BoxedStrategy<TwoEx> { (cfg(), ex(2), ex(1)).prop_map(|(cfg, a, b)| TwoEx { cfg, a, b }).boxed() }
    fn check(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
        fn size<T: Fin + std::ops::Sub<Output = T>>(i: &Interval<T>, m: Rng2) -> Result<(), String> {
            let want = match m {
                None => None,
                Some((l, h)) => {
                    // u - l, when it fits the type.
                    let zero = zero_ix::<T>();
                    let Some(d) = zero.checked_add(h - l).filter(|d| *d <= T::LAST) else { return Ok(()) };
                    Some(T::at(d))
                }
            };
            if i.size() != want { return Err(format!("{}.size() = {:?}, expected {:?}", show(i), i.size(), want)); }
            Ok(())
        }
        fn zero_ix<T: Fin + std::ops::Sub<Output = T>>() -> u128 { (T::at(T::LAST) - T::at(T::LAST)).ix() }
        fn go<T: Fin>(c: &TwoEx, o: &mut Obs) -> Result<(), String> {
            let (a, ma) = c.a.eval::<T>(&c.cfg)?;
            let (b, mb) = c.b.eval::<T>(&c.cfg)?;
            o.nt(ma.is_some());
            r_label(o, T::LAST, ma);
            one(&a, ma)?;
            one(&b, mb)?;
            adj(&a, ma, &b, mb, o)?;
            // Neighbours placed on purpose.
            if let Some((l, h)) = ma {
                let mut near = vec![Some((l, l)), Some((h, h)), Some((0, l)), Some((h, T::LAST)), ma];
                if l > 0 { near.push(Some((l - 1, l - 1))); near.push(Some((0, l - 1))); }
                if h < T::LAST { near.push(Some((h + 1, h + 1))); near.push(Some((h + 1, T::LAST))); }
                for m in near {
                    let (p, q) = m.expect("range");
                    adj(&a, ma, &Interval::closed(T::at(p), T::at(q)), m, o)?;
                }
            }
            Ok(())
        }
        fn adj<T: Fin>(a: &Interval<T>, ma: Rng2, b: &Interval<T>, mb: Rng2, o: &mut Obs) -> Result<(), String> {
            let want = match (ma, mb) { (Some((l, h)), Some((p, q))) => h == p || q == l, _ => false };
            o.label_if(want, "adjacent pair");
            for (x, y) in [(a, b), (b, a)] {
                if x.is_adjacent_to(y) != want { return Err(format!("{} is_adjacent_to {} = {}, expected {want}", show(x), show(y), !want)); }
            }
            Ok(())
        }
        fn one<T: Fin>(i: &Interval<T>, m: Rng2) -> Result<(), String> {
            let t = show(i);
            let ne = m.is_some();
            let inf = m.map(|(l, _)| T::at(l));
            let sup = m.map(|(_, h)| T::at(h));
            iv_is(&t, i, m)?;
            let q: [(&str, bool, bool); 17] = [
                ("is_empty", i.is_empty(), !ne),
                ("is_degenerate", i.is_degenerate(), m.is_some_and(|(l, h)| l == h)),
                ("is_proper", i.is_proper(), m.is_some_and(|(l, h)| l < h)),
                ("is_open", i.is_open(), !ne),
                ("is_left_open", i.is_left_open(), false),
                ("is_right_open", i.is_right_open(), false),
                ("is_half_open", i.is_half_open(), false),
                ("is_closed", i.is_closed(), true),
                ("is_left_closed", i.is_left_closed(), ne),
                ("is_right_closed", i.is_right_closed(), ne),
                ("is_half_closed", i.is_half_closed(), false),
                ("is_bounded", i.is_bounded(), true),
                ("is_left_bounded", i.is_left_bounded(), true),
                ("is_right_bounded", i.is_right_bounded(), true),
                ("is_half_bounded", i.is_half_bounded(), false),
                ("into_non_empty().is_some", i.clone().into_non_empty().is_some(), ne),
                ("into_non_empty() == itself", i.clone().into_non_empty().map_or(true, |x| &x == i), true),
            ];
            for (n, got, want) in q { if got != want { return Err(format!("{t}.{n}() = {got}, expected {want} (index range {m:?})")); } }
            if i.infimum() != inf { return Err(format!("{t}.infimum() = {:?}, expected {:?}", i.infimum(), inf)); }
            if i.supremum() != sup { return Err(format!("{t}.supremum() = {:?}, expected {:?}", i.supremum(), sup)); }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))?;
        // size() needs subtraction, which the integers have.
        macro_rules! sz { ($($v:ident $t:ty),*) => { match c.cfg.ty { $(Ty::$v => {
            for e in [&c.a, &c.b] { let (i, m) = e.eval::<$t>(&c.cfg)?; size(&i, m)?; }
        })* _ => () } } }
        sz!(U8 u8, I8 i8, U16 u16, I16 i16, U32 u32, I32 i32, U64 u64, I64 i64, U128 u128, I128 i128, Usize usize, Isize isize);
        Ok(())
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) { pairs(k) }
}

// ---------------------------------------------------------------- C06
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct IterCase { pub cfg: Cfg, pub e: Ex, pub sched: Vec<u8> }
pub struct C06;
impl Prop for C06 {
    type Case = IterCase;
    const ID: &'static str = "C06";
    const RULE: &'static str = "an interval expression and a schedule of front/back steps, some skipping items; borrowed and owned iteration against the listed points (intervals over 600 points: as many steps as the schedule has, from both ends, besides some of 65,536 points read whole); non-trivial: at least two points and both directions used";
    const N: (u64, u64) = (2_080_000, 65_700_000);
    fn strategy(t: bool) -> BoxedStrategy<IterCase> {
        (cfg(), ex(1), iters::schedule(if t { 200 } else { 40 })).prop_map(|(cfg, e, sched)| IterCase { cfg, e, sched }).boxed()
    }
    fn check(c: &IterCase, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &IterCase, o: &mut Obs) -> Result<(), String> {
            let (i, m) = c.e.eval::<T>(&c.cfg)?;
            r_label(o, T::LAST, m);
            o.nt(m.is_some_and(|(l, h)| l < h) && c.sched.iter().any(|s| iters::back(*s)) && !c.sched.iter().all(|s| iters::back(*s)));
            iter_is(&show(&i), &i, m, &c.sched)
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        // Long intervals, read whole.
        for ty in [Ty::U16, Ty::I16] {
            for sched in iters::long_schedules() {
                if !k.turn(|| IterCase { cfg: Cfg { ty, spread: 30, classes: 0 }, e: Ex::Base(Iv::Full), sched }) { return; }
            }
        }
        for (cfg, n) in small_cfgs() {
            for iv in all_ranges(n) {
                for bits in 0..1u32 << (n + 1).min(8) {
                    let sched: Vec<u8> = (0..(n + 1).min(8)).map(|b| (bits >> b & 1) as u8).collect();
                    if !k.turn(|| IterCase { cfg, e: Ex::Base(iv.clone()), sched }) { return; }
                }
            }
            for iv in all_ivs(n) { if !k.turn(|| IterCase { cfg, e: Ex::Base(iv), sched: vec![0, 1, 1, 0] }) { return; } }
        }
    }
}

// ---------------------------------------------------------------- C14
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct RawCase { pub cfg: Cfg, pub shape: u8, pub a: Coord, pub b: Coord, pub ctor: bool }
pub struct C14;
impl Prop for C14 {
    type Case = RawCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "an un-normalized interval of every shape (variant or named constructor) over 18 finite point types; normalize / denormalize compared with index arithmetic, form, idempotence, round trips; non-trivial: shape with a bound";
    const N: (u64, u64) = (6_310_000, 198_900_000);
    fn strategy(_t: bool) -> BoxedStrategy<RawCase> {
        let near = (coord(), 0u16..4).prop_map(|(a, d)| (a, (a & 0xe000) | ((a & 0x1fff).saturating_add(d).min(0x1fff))));
        (cfg(), 0u8..15, prop_oneof![2 => (coord(), coord()), 3 => near], any::<bool>())
            .prop_map(|(cfg, shape, (a, b), ctor)| RawCase { cfg, shape, a, b, ctor }).boxed()
    }
    fn check(c: &RawCase, o: &mut Obs) -> Result<(), String> {
        fn raw_points<T: Fin>(what: &str, r: &RawInterval<T>, m: Rng2, extra: &[u128]) -> Result<(), String> {
            let s = Set::range(m);
            for x in probes::<T>(&[&s], extra) {
                if r.contains(&T::at(x)) != s.has(x) { return Err(format!("{what} = {}: contains({:?}) is {}, expected {}", show(r), T::at(x), !s.has(x), s.has(x))); }
            }
            Ok(())
        }
        fn go<T: Fin>(c: &RawCase, o: &mut Obs) -> Result<(), String> {
            let (mut a, mut b) = (c.cfg.ix::<T>(c.a), c.cfg.ix::<T>(c.b));
            if !c.ctor && c.shape < 11 && a > b { std::mem::swap(&mut a, &mut b); }
            let (r, m) = if c.ctor && (2..=5).contains(&c.shape) {
                let iv = match c.shape { 2 => Iv::Open(c.a, c.b), 3 => Iv::LeftOpen(c.a, c.b), 4 => Iv::RightOpen(c.a, c.b), _ => Iv::Closed(c.a, c.b) };
                let (_, m) = iv.build::<T>(&c.cfg);
                let (p, q) = (T::at(a), T::at(b));
                (match c.shape { 2 => RawInterval::open(p, q), 3 => RawInterval::left_open(p, q), 4 => RawInterval::right_open(p, q), _ => RawInterval::closed(p, q) }, m)
            } else { raw::<T>(c.shape, a, b) };
            o.nt(!matches!(r, RawInterval::Empty | RawInterval::Full));
            r_label(o, T::LAST, m);
            let t = show(&r);
            let n = r.clone().normalized();
            let d = r.clone().denormalized();
            raw_points(&format!("{t}.normalized()"), &n, m, &[a, b])?;
            raw_points(&format!("{t}.denormalized()"), &d, m, &[a, b])?;
            let canon = match m {
                None => RawInterval::Empty,
                Some((l, h)) if l == h => RawInterval::Point(T::at(l)),
                Some((l, h)) => RawInterval::Closed(T::at(l), T::at(h)),
            };
            if n != canon { return Err(format!("{t}.normalized() = {}, expected {}", show(&n), show(&canon))); }
            let mut x = r.clone();
            x.normalize();
            if x != n { return Err(format!("{t}: normalize() in place gives {}, normalized() {}", show(&x), show(&n))); }
            let mut x = r.clone();
            x.denormalize();
            if x != d { return Err(format!("{t}: denormalize() in place gives {}, denormalized() {}", show(&x), show(&d))); }
            if n.clone().normalized() != n { return Err(format!("{t}: normalizing twice gives {}", show(&n.clone().normalized()))); }
            if d.clone().denormalized() != d { return Err(format!("{t}: denormalizing twice gives {} after {}", show(&d.clone().denormalized()), show(&d))); }
            if d.clone().normalized() != n { return Err(format!("{t}: denormalized then normalized gives {}, expected {}", show(&d.clone().normalized()), show(&n))); }
            let nd = n.clone().denormalized();
            let broad = match m {
                None => RawInterval::Empty,
                Some((l, h)) => match (l > 0, h < T::LAST) {
                    (true, true) => RawInterval::Open(T::at(l - 1), T::at(h + 1)),
                    (true, false) => RawInterval::UpFrom(T::at(l - 1)),
                    (false, true) => RawInterval::UpTo(T::at(h + 1)),
                    (false, false) => RawInterval::Full,
                },
            };
            if nd != broad { return Err(format!("{t}: normalized then denormalized gives {}, expected {}", show(&nd), show(&broad))); }
            if nd.clone().normalized() != n { return Err(format!("{t}: {} normalizes to {}, expected {}", show(&nd), show(&nd.clone().normalized()), show(&n))); }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for (cfg, n) in small_cfgs() { for shape in 0..15 { for a in 0..n { for b in 0..n { for ctor in [false, true] {
            if !k.turn(|| RawCase { cfg, shape, a, b, ctor }) { return; }
        } } } } }
        // All pairs of a byte type.
        for ty in [Ty::U8, Ty::I8] { for shape in 0..11 { for a in 0..256u16 { for b in (a..256).step_by(if a < 4 { 1 } else { 17 }) {
            let cfg = Cfg { ty, spread: 256, classes: 0 };
            if !k.turn(|| RawCase { cfg, shape, a, b, ctor: false }) { return; }
        } } } }
    }
}

// ---------------------------------------------------------------- C15
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct StepCase { pub ty: Ty, pub hi: u64, pub lo: u64 }
pub struct C15;
/// Integer literals of the library's sources: a value the code treats specially is tried.
/// (The oracle does not depend on them.)
fn numbers() -> Vec<u128> {
    let mut v = vec![];
    let mut files: Vec<_> = std::fs::read_dir("/repo/src").into_iter().flatten().flatten().map(|f| f.path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    for f in files {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines().map(str::trim).filter(|l| !l.starts_with("//")) {
            for w in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| w.starts_with(|c: char| c.is_ascii_digit())) {
                let w = w.replace('_', "").to_lowercase();
                let w = w.find(|c: char| c == 'u' || c == 'i').map_or(&*w, |i| &w[..i]);
                let x = match w.get(..2) { Some("0x") => u128::from_str_radix(&w[2..], 16), Some("0b") => u128::from_str_radix(&w[2..], 2), Some("0o") => u128::from_str_radix(&w[2..], 8), _ => w.parse() };
                if let Ok(x) = x { if !v.contains(&x) && v.len() < 500 { v.push(x); } }
            }
        }
    }
    v
}
impl Prop for C15 {
    type Case = StepCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "a value of each of the 12 integer types (8- and 16-bit types completely, others random with bit-pattern bias and around the extremes, zero and powers of two) against checked_add/checked_sub; non-trivial: every value";
    const N: (u64, u64) = (16_550_000, 521_300_000);
    fn strategy(_t: bool) -> BoxedStrategy<StepCase> {
        let word = || prop_oneof![3 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 2 => 0u64..300, 2 => (0u64..300).prop_map(|x| u64::MAX - x),
            3 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
            2 => (0u32..64, -2i64..3).prop_map(|(b, d)| (u64::MAX >> b).wrapping_add(d as u64))];
        let ty = proptest::sample::select(vec![Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::U128, Ty::I128, Ty::Usize, Ty::Isize]);
        (ty, word(), word()).prop_map(|(ty, hi, lo)| StepCase { ty, hi, lo }).boxed()
    }
    fn check(c: &StepCase, o: &mut Obs) -> Result<(), String> {
        let raw = (c.hi as u128) << 64 | c.lo as u128;
        macro_rules! go { ($($v:ident $t:ident),*) => { match c.ty { $(Ty::$v => {
            let x = raw as $t;
            let (p, s) = (x.pred(), x.succ());
            o.label_if(x == $t::MAX, "maximum");
            o.label_if(x == $t::MIN, "minimum");
            if <$t as Finite>::MINIMUM != $t::MIN || <$t as Finite>::MAXIMUM != $t::MAX {
                return Err(format!("{}: declared extremes {} {}", stringify!($t), <$t as Finite>::MINIMUM, <$t as Finite>::MAXIMUM));
            }
            if p != x.checked_sub(1) { return Err(format!("{}: pred({x}) = {:?}, expected {:?}", stringify!($t), p, x.checked_sub(1))); }
            if s != x.checked_add(1) { return Err(format!("{}: succ({x}) = {:?}, expected {:?}", stringify!($t), s, x.checked_add(1))); }
            if let Some(s) = s { if s.pred() != Some(x) { return Err(format!("{}: pred(succ({x})) = {:?}", stringify!($t), s.pred())); } }
            if let Some(p) = p { if p.succ() != Some(x) { return Err(format!("{}: succ(pred({x})) = {:?}", stringify!($t), p.succ())); } }
        })* _ => () } } }
        o.nt(true);
        go!(U8 u8, I8 i8, U16 u16, I16 i16, U32 u32, I32 i32, U64 u64, I64 i64, U128 u128, I128 i128, Usize usize, Isize isize);
        Ok(())
    }
    fn enumerate(_t: bool, k: &mut Sink<Self>) {
        for lo in 0..256 { for ty in [Ty::U8, Ty::I8] { if !k.turn(|| StepCase { ty, hi: 0, lo }) { return; } } }
        for lo in 0..65536 { for ty in [Ty::U16, Ty::I16] { if !k.turn(|| StepCase { ty, hi: 0, lo }) { return; } } }
        // Around zero, the extremes and every power of two (both signs) of every type.
        for ty in [Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::U128, Ty::I128, Ty::Usize, Ty::Isize] {
            for b in 0..128u32 { for d in -3i128..4 { for neg in [false, true] {
                let x = (1u128 << b).wrapping_add(d as u128);
                let x = if neg { x.wrapping_neg() } else { x };
                if !k.turn(|| StepCase { ty, hi: (x >> 64) as u64, lo: x as u64 }) { return; }
            } } }
            // Small multiples of powers of two, powers of ten, and the numbers the sources name.
            let mut marks: Vec<u128> = (0..128u32).flat_map(|b| (3u128..16).step_by(2).map(move |m| m.wrapping_shl(b))).collect();
            marks.extend((0..39u32).map(|e| 10u128.pow(e)));
            marks.extend(numbers());
            for m in marks { for d in -2i128..3 { for neg in [false, true] {
                let x = m.wrapping_add(d as u128);
                let x = if neg { x.wrapping_neg() } else { x };
                if !k.turn(|| StepCase { ty, hi: (x >> 64) as u64, lo: x as u64 }) { return; }
            } } }
        }
    }
}
