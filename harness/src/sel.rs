//! Histories that build selections, beside the range-set model.
use crate::fin::*;
use crate::iters;
use normalize_interval::{Interval, Selection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};


pub fn scfg() -> BoxedStrategy<Cfg> {
    let ty = prop_oneof![
        6 => Just(Ty::U8), 4 => Just(Ty::I8), 4 => Just(Ty::I32), 1 => Just(Ty::U64),
        1 => Just(Ty::U128), 1 => Just(Ty::I128), 1 => Just(Ty::S1), 1 => Just(Ty::S2), 1 => Just(Ty::S3),
        1 => prop_oneof![Just(Ty::U16), Just(Ty::I16), Just(Ty::U32), Just(Ty::I64), Just(Ty::Usize), Just(Ty::Isize)],
        3 => Just(Ty::S7), 3 => Just(Ty::S10), 1 => Just(Ty::Rev), 2 => Just(Ty::Heap)
    ];
    let spread = prop_oneof![1 => Just(4u16), 4 => Just(8), 4 => Just(14), 3 => Just(30), 1 => Just(80), 1 => Just(256)];
    let classes = prop_oneof![4 => Just(0u8), 2 => Just(1), 2 => Just(2), 2 => Just(3), 2 => Just(4), 1 => Just(5), 1 => Just(6)];
    (ty, spread, classes).prop_map(|(ty, spread, classes)| Cfg { ty, spread, classes }).boxed()
}

/// Which register (three of them) a step reads or writes.
pub type Reg = u8;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SOp {
    Set(Reg, Iv), Full(Reg), Empty(Reg), Copy(Reg, Reg),
    UniteIn(Reg, Iv), MeetIn(Reg, Iv), TakeIn(Reg, Iv),
    Union(Reg, Reg, Reg), Intersect(Reg, Reg, Reg), Minus(Reg, Reg, Reg), Complement(Reg, Reg),
    Points(Reg, Vec<Coord>), Ivs(Reg, Vec<Iv>), Extend(Reg, Vec<Iv>),
    /// Regularly spaced ranges: from a coordinate on, `count` ranges of `len`+1 points, `step`+1
    /// points apart. `how` % 4: 0 collected, 1 extending, 2 united in place, 3 taken out in
    /// place; `how` / 4 % 4: the order (upward, downward, every third, every seventh).
    Comb { r: Reg, start: Coord, step: u8, len: u8, count: u16, how: u8 },
    /// 0: from its intervals, 1: from its intervals in reverse, 2: from its points,
    /// 3: by uniting its intervals in place, 4: full minus the gaps.
    Rebuild(Reg, u8),
}

pub struct Regs<T> { pub sel: [Selection<T>; 3], pub set: [Set; 3] }

impl<T: Fin> Regs<T> {
    pub fn new() -> Self {
        Regs { sel: [Selection::new(), Selection::empty(), Selection::default()], set: [Set::empty(), Set::empty(), Set::empty()] }
    }
    /// Applies a step to both sides and gives the register written.
    pub fn apply(&mut self, cfg: &Cfg, op: &SOp) -> usize {
        let ix = |r: &Reg| *r as usize % 3;
        match op {
            SOp::Set(r, i) => { let (v, m) = i.build::<T>(cfg); let r = ix(r); self.sel[r] = v.into(); self.set[r] = Set::range(m); r }
            SOp::Full(r) => { let r = ix(r); self.sel[r] = Selection::full(); self.set[r] = Set::full(T::LAST); r }
            SOp::Empty(r) => { let r = ix(r); self.sel[r] = Selection::empty(); self.set[r] = Set::empty(); r }
            SOp::Copy(r, a) => { let (r, a) = (ix(r), ix(a)); self.sel[r] = self.sel[a].clone(); self.set[r] = self.set[a].clone(); r }
            SOp::UniteIn(r, i) => {
                let (v, m) = i.build::<T>(cfg); let r = ix(r);
                self.sel[r].union_in_place(v); self.set[r] = self.set[r].union(&Set::range(m)); r
            }
            SOp::MeetIn(r, i) => {
                let (v, m) = i.build::<T>(cfg); let r = ix(r);
                self.sel[r].intersect_in_place(v); self.set[r] = self.set[r].intersect(&Set::range(m)); r
            }
            SOp::TakeIn(r, i) => {
                let (v, m) = i.build::<T>(cfg); let r = ix(r);
                self.sel[r].minus_in_place(v); self.set[r] = self.set[r].minus(&Set::range(m), T::LAST); r
            }
            SOp::Union(r, a, b) => {
                let (r, a, b) = (ix(r), ix(a), ix(b));
                let (s, m) = (self.sel[a].union(&self.sel[b]), self.set[a].union(&self.set[b]));
                self.sel[r] = s; self.set[r] = m; r
            }
            SOp::Intersect(r, a, b) => {
                let (r, a, b) = (ix(r), ix(a), ix(b));
                let (s, m) = (self.sel[a].intersect(&self.sel[b]), self.set[a].intersect(&self.set[b]));
                self.sel[r] = s; self.set[r] = m; r
            }
            SOp::Minus(r, a, b) => {
                let (r, a, b) = (ix(r), ix(a), ix(b));
                let (s, m) = (self.sel[a].minus(&self.sel[b]), self.set[a].minus(&self.set[b], T::LAST));
                self.sel[r] = s; self.set[r] = m; r
            }
            SOp::Complement(r, a) => {
                let (r, a) = (ix(r), ix(a));
                let (s, m) = (self.sel[a].complement(), self.set[a].complement(T::LAST));
                self.sel[r] = s; self.set[r] = m; r
            }
            SOp::Points(r, cs) => {
                let r = ix(r);
                self.sel[r] = cs.iter().map(|c| cfg.pt::<T>(*c)).collect();
                self.set[r] = Set::from_ranges(cs.iter().map(|c| { let x = cfg.ix::<T>(*c); (x, x) }).collect());
                r
            }
            SOp::Ivs(r, is) => {
                let r = ix(r);
                let (v, m) = ivs::<T>(cfg, is);
                self.sel[r] = v.into_iter().collect();
                self.set[r] = m;
                r
            }
            SOp::Extend(r, is) => {
                let r = ix(r);
                let (v, m) = ivs::<T>(cfg, is);
                self.sel[r].extend(v);
                self.set[r] = self.set[r].union(&m);
                r
            }
            SOp::Comb { r, start, step, len, count, how } => {
                let r = ix(r);
                let a = cfg.ix::<T>(*start);
                let gap = u128::from(*step) + u128::from(*len) + 2;
                // Where the ranges no longer fit upward they go on from the minimum.
                let fits = |l: u128| l.checked_add(u128::from(*len)).filter(|h| *h <= T::LAST);
                let mut v = vec![];
                for i in 0..u128::from(*count) {
                    let l = match a.checked_add(i * gap).filter(|l| fits(*l).is_some()) {
                        Some(l) => l,
                        None => { let w = i * gap % (gap * 40); if fits(w).is_none() { break; } w }
                    };
                    v.push((l, fits(l).expect("fits")));
                }
                let n = v.len();
                let stride = match how / 4 % 4 { 2 if n % 3 != 0 => 3, 3 if n % 7 != 0 => 7, _ => 1 };
                let mut w: Vec<(u128, u128)> = (0..n).map(|i| v[i * stride % n]).collect();
                if how / 4 % 4 == 1 { w.reverse(); }
                let m = Set::from_ranges(w.clone());
                let is = w.into_iter().map(iv_of);
                match how % 4 {
                    0 => { self.sel[r] = is.collect(); self.set[r] = m; }
                    1 => { self.sel[r].extend(is); self.set[r] = self.set[r].union(&m); }
                    2 => { for i in is { self.sel[r].union_in_place(i); } self.set[r] = self.set[r].union(&m); }
                    _ => { for i in is { self.sel[r].minus_in_place(i); } self.set[r] = self.set[r].minus(&m, T::LAST); }
                }
                r
            }
            SOp::Rebuild(r, how) => {
                let r = ix(r);
                self.sel[r] = rebuild(&self.sel[r], &self.set[r], *how);
                r
            }
        }
    }
}

/// Another selection of the same points, made from the selection's own listings.
fn rebuild<T: Fin>(s: &Selection<T>, m: &Set, how: u8) -> Selection<T> {
    match how % 5 {
        0 => s.interval_iter().collect(),
        1 => s.interval_iter().rev().collect(),
        2 if m.count_capped(500) <= 500 => s.iter().take(600).collect(),
        3 => { let mut o = Selection::new(); for i in s.clone().into_interval_iter() { o.union_in_place(i); } o }
        4 => {
            let gaps = s.complement();
            let mut o = Selection::full();
            for i in gaps.interval_iter() { o.minus_in_place(i); }
            o
        }
        _ => { let mut o = Selection::new(); o.extend(s.interval_iter()); o }
    }
}

pub fn ivs<T: Fin>(cfg: &Cfg, is: &[Iv]) -> (Vec<Interval<T>>, Set) {
    let (mut v, mut m) = (vec![], vec![]);
    for i in is { let (x, r) = i.build::<T>(cfg); v.push(x); m.extend(r); }
    (v, Set::from_ranges(m))
}

/// A history of steps over three registers.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Hist { pub cfg: Cfg, pub ops: Vec<SOp> }

pub fn reg() -> BoxedStrategy<Reg> { prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2)].boxed() }
pub fn reg3() -> BoxedStrategy<Reg> { (0u8..3).boxed() }

pub fn sop() -> BoxedStrategy<SOp> {
    let v = |n| proptest::collection::vec(iv_ne(), 0..n);
    prop_oneof![
        3 => (reg(), iv_ne()).prop_map(|(r, i)| SOp::Set(r, i)),
        1 => reg().prop_map(SOp::Full), 1 => reg().prop_map(SOp::Empty), 1 => (reg(), reg3()).prop_map(|(r, a)| SOp::Copy(r, a)),
        14 => (reg(), iv_ne()).prop_map(|(r, i)| SOp::UniteIn(r, i)),
        4 => (reg(), iv_ne()).prop_map(|(r, i)| SOp::MeetIn(r, i)),
        10 => (reg(), iv_ne()).prop_map(|(r, i)| SOp::TakeIn(r, i)),
        3 => (reg(), reg3(), reg3()).prop_map(|(r, a, b)| SOp::Union(r, a, b)),
        3 => (reg(), reg3(), reg3()).prop_map(|(r, a, b)| SOp::Intersect(r, a, b)),
        3 => (reg(), reg3(), reg3()).prop_map(|(r, a, b)| SOp::Minus(r, a, b)),
        4 => (reg(), reg3()).prop_map(|(r, a)| SOp::Complement(r, a)),
        3 => (reg(), proptest::collection::vec(coord(), 0..12)).prop_map(|(r, c)| SOp::Points(r, c)),
        3 => (reg(), v(6)).prop_map(|(r, i)| SOp::Ivs(r, i)),
        3 => (reg(), v(4)).prop_map(|(r, i)| SOp::Extend(r, i)),
        2 => (reg(), 0u8..5).prop_map(|(r, h)| SOp::Rebuild(r, h)),
    ].boxed()
}
pub fn comb() -> BoxedStrategy<SOp> {
    let count = prop_oneof![2 => 2u16..12, 3 => 12u16..40, 1 => 40u16..120, 1 => Just(16u16), 1 => Just(32u16), 1 => Just(64u16)];
    (reg(), coord(), prop_oneof![3 => Just(0u8), 2 => 0u8..6], prop_oneof![3 => Just(0u8), 2 => 0u8..6], count, any::<u8>())
        .prop_map(|(r, start, step, len, count, how)| SOp::Comb { r, start, step, len, count, how }).boxed()
}
/// Histories over selections of many intervals, and wide ones.
pub fn large(max: usize) -> BoxedStrategy<Hist> {
    let cfg = scfg().prop_flat_map(|c| {
        let spread = prop_oneof![2 => Just(c.spread), 2 => Just(256u16), 1 => Just(2000), 1 => Just(8191)];
        spread.prop_map(move |spread| Cfg { spread, ..c })
    });
    let many = prop_oneof![
        6 => comb(),
        1 => (reg(), proptest::collection::vec(coord(), 10..90)).prop_map(|(r, c)| SOp::Points(r, c)),
        1 => (reg(), proptest::collection::vec(iv_ne(), 6..40)).prop_map(|(r, i)| SOp::Ivs(r, i)),
        1 => (reg(), proptest::collection::vec(iv_ne(), 6..40)).prop_map(|(r, i)| SOp::Extend(r, i)),
    ];
    let step = prop_oneof![2 => many.clone(), 3 => sop()];
    (cfg, many, proptest::collection::vec(step, 0..max)).prop_map(|(cfg, first, mut ops)| { ops.insert(0, first); Hist { cfg, ops } }).boxed()
}
/// Selections of hundreds of intervals, one or two of them, and a few more steps.
pub fn huge() -> BoxedStrategy<Hist> {
    let cfg = (prop_oneof![Just(Ty::U16), Just(Ty::I16), Just(Ty::I32), Just(Ty::U64), Just(Ty::I128)], prop_oneof![2 => Just(0u8), 1 => Just(2), 1 => Just(4)])
        .prop_map(|(ty, classes)| Cfg { ty, spread: 3000, classes });
    let comb = |r: Reg| (0u16..60, 0u8..6, 0u8..6, 100u16..400, any::<u8>()).prop_map(move |(start, step, len, count, how)| SOp::Comb { r, start, step, len, count, how });
    (cfg, comb(0), comb(1), proptest::collection::vec(sop(), 0..5)).prop_map(|(cfg, a, b, rest)| {
        let mut ops = vec![SOp::Full(1), a, b];
        ops.extend(rest);
        Hist { cfg, ops }
    }).boxed()
}
/// A fixed few of these, of up to `max` intervals.
pub fn huge_fixed(max: u16) -> Vec<Hist> {
    let mut v = vec![];
    for (i, n) in [65u16, 129, 257, 300, 520, 1030, 2050, 4100].into_iter().filter(|n| *n <= max).enumerate() { for how in 0..4u8 {
        let ty = [Ty::U16, Ty::I16, Ty::I32, Ty::U64, Ty::I128][(i + how as usize) % 5];
        let cfg = Cfg { ty, spread: 8000, classes: if how % 2 == 0 { 0 } else { 2 } };
        let (s, l) = [(3, 2), (0, 0), (1, 3), (2, 0)][(i / 2 + how as usize) % 4];
        let first = match how { 3 => SOp::Full(0), _ => SOp::Empty(0) };
        let mut ops = vec![first, SOp::Full(1), SOp::Comb { r: 0, start: 0, step: s, len: l, count: n, how: how + 4 * how },
            SOp::Comb { r: 1, start: 2, step: 2, len: 1, count: n / 2 + 9, how: 3 - how + 8 * (how % 2) }];
        if how == 2 { ops.push(SOp::Complement(1, 1)); }
        ops.extend([SOp::UniteIn(0, Iv::Closed(n, n + 5)), SOp::TakeIn(0, Iv::Open(n / 2, n / 2 + 20)), SOp::TakeIn(0, Iv::Point(n + 1)), SOp::UniteIn(0, Iv::LeftOpen(40, 90)), SOp::MeetIn(0, Iv::Closed(7, 5 * n))]);
        v.push(Hist { cfg, ops });
    } }
    v
}
/// In-place edits only, on one register.
pub fn edit() -> BoxedStrategy<SOp> {
    prop_oneof![
        4 => iv_ne().prop_map(|i| SOp::UniteIn(0, i)),
        1 => iv_ne().prop_map(|i| SOp::MeetIn(0, i)),
        3 => iv_ne().prop_map(|i| SOp::TakeIn(0, i)),
    ].boxed()
}
pub fn hist(max: usize) -> BoxedStrategy<Hist> {
    let usual = (scfg(), proptest::collection::vec(sop(), 1..=max)).prop_map(|(cfg, ops)| Hist { cfg, ops });
    prop_oneof![LARGE => usual, 1 => large(max)].boxed()
}
/// One case in so many is of large selections.
pub const LARGE: u32 = 24;

impl Hist {
    pub fn run<T: Fin>(&self) -> Regs<T> {
        let mut r = Regs::new();
        for op in &self.ops { r.apply(&self.cfg, op); }
        r
    }
}

/// The steps that build, in register `r`, the subset of `0..n` given by the mask, one of several ways.
pub fn subset_ops(r: Reg, n: u16, mask: u32, how: u8) -> Vec<SOp> {
    let runs = |m: u32| { // runs of ones, in order
        let mut v = vec![];
        let mut i = 0u16;
        while i < n {
            if m >> i & 1 == 1 { let a = i; while i + 1 < n && m >> (i + 1) & 1 == 1 { i += 1; } v.push((a, i)); }
            i += 1;
        }
        v
    };
    let full = (1u32 << n) - 1;
    match how % 6 {
        0 => vec![SOp::Ivs(r, runs(mask).into_iter().map(|(a, b)| Iv::Closed(a, b)).collect())],
        1 => vec![SOp::Points(r, (0..n).rev().filter(|i| mask >> i & 1 == 1).collect())],
        2 => { // Everything, less the gaps.
            let mut v = vec![SOp::Full(r)];
            v.extend(runs(full & !mask).into_iter().map(|(a, b)| SOp::TakeIn(r, Iv::Closed(a, b))));
            v
        }
        3 => { // Complement of the complement's points.
            vec![SOp::Points(r, (0..n).filter(|i| mask >> i & 1 == 0).collect()), SOp::Complement(r, r)]
        }
        4 => { // Everything, less the gaps' points one at a time from the top.
            let mut v = vec![SOp::Full(r)];
            v.extend((0..n).rev().filter(|i| mask >> i & 1 == 0).map(|i| SOp::TakeIn(r, Iv::Point(i))));
            v
        }
        _ => { // Piece by piece from the top, in place, then cut to the hull.
            let rs = runs(mask);
            let mut v = vec![SOp::Empty(r)];
            v.extend(rs.iter().rev().map(|&(a, b)| SOp::UniteIn(r, Iv::Closed(a, b))));
            if let (Some(f), Some(l)) = (rs.first(), rs.last()) { v.push(SOp::MeetIn(r, Iv::Closed(f.0, l.1))); }
            v
        }
    }
}

/// Membership at every point (or around every range end) and nothing else.
pub fn points_are<T: Fin>(what: &str, s: &Selection<T>, m: &Set, others: &[&Set]) -> Result<(), String> {
    let mut sets = vec![m];
    sets.extend(others);
    let mut at = probes::<T>(&sets, &[]);
    if m.0.len() > 100 && at.len() > 600 {
        // `contains` may look at every interval: some of the probes, and all of the listing.
        let want = m.0.iter().map(|&r| iv_of::<T>(r));
        if !s.interval_iter().take(m.0.len() + 1).eq(want) { return Err(format!("{what}: the intervals listed are not those of its points; selection {}, expected index ranges {}", show(s), show(&m.0))); }
        let every = at.len() / 300;
        let mut i = 0;
        let n = at.len();
        at.retain(|_| { i += 1; i < 10 || i + 10 > n || (i * i / 7 + i) % every == 0 });
    }
    for x in at {
        let (got, want) = (s.contains(&T::at(x)), m.has(x));
        if got != want { return Err(format!("{what}: contains({:?}) = {got}, expected {want}; selection {}, expected index ranges {}", T::at(x), show(s), show(&m.0))); }
    }
    Ok(())
}

/// A cheaper membership check after each step: only around the ends of the ranges involved.
pub fn points_near<T: Fin>(what: &str, s: &Selection<T>, m: &Set, extra: &[u128]) -> Result<(), String> {
    let mut v = vec![0, T::LAST];
    let mut add = |x: u128| {
        v.push(x);
        if x < T::LAST { v.push(x + 1); }
        if x > 0 { v.push(x - 1); }
    };
    for &(l, h) in &m.0 { add(l); add(h); }
    for &x in extra { add(x); }
    v.sort();
    v.dedup();
    for x in v {
        let (got, want) = (s.contains(&T::at(x)), m.has(x));
        if got != want { return Err(format!("{what}: contains({:?}) = {got}, expected {want}; selection {}, expected index ranges {}", T::at(x), show(s), show(&m.0))); }
    }
    Ok(())
}

pub fn iv_of<T: Fin>(r: (u128, u128)) -> Interval<T> { Interval::closed(T::at(r.0), T::at(r.1)) }

/// The listing of intervals, every way of reading it.
pub fn listing_is<T: Fin>(what: &str, s: &Selection<T>, m: &Set, sched: &[u8]) -> Result<(), String> {
    let want: Vec<Interval<T>> = m.0.iter().map(|&r| iv_of(r)).collect();
    let sched = iters::unmarked(sched).0;
    iters::both_ends(&format!("{what}: interval_iter()"), s.interval_iter(), &want, sched)?;
    iters::both_ends(&format!("{what}: into_interval_iter()"), s.clone().into_interval_iter(), &want, sched)?;
    iters::whole(&format!("{what}: interval_iter()"), || s.interval_iter(), &want, sched, 0)?;
    iters::whole(&format!("{what}: into_interval_iter()"), || s.clone().into_interval_iter(), &want, sched, 1)
}

/// The points, from either end.
pub fn iteration_is<T: Fin>(what: &str, s: &Selection<T>, m: &Set, sched: &[u8]) -> Result<(), String> {
    let (sched, long) = iters::unmarked(sched);
    let max = if long { iters::WHOLE_MAX } else { 700 };
    if m.count_capped(max) <= max {
        let k = if long { m.count_capped(max) as usize / 3 * 2 } else { 0 };
        let want: Vec<T> = m.points().map(T::at).collect();
        iters::both_ends(&format!("{what}: iter()"), s.iter(), &want, sched)?;
        iters::both_ends(&format!("{what}: (&s).into_iter()"), s.into_iter(), &want, sched)?;
        iters::both_ends(&format!("{what}: into_iter()"), s.clone().into_iter(), &want, sched)?;
        iters::whole(&format!("{what}: iter()"), || s.iter(), &want, sched, k)?;
        iters::whole(&format!("{what}: into_iter()"), || s.clone().into_iter(), &want, sched, k + 1)?;
        iters::ordered(&format!("{what}: iter()"), s.iter(), &want, sched)?;
        iters::ordered(&format!("{what}: into_iter()"), s.clone().into_iter(), &want, sched)
    } else {
        let k = iters::reach(sched);
        let total = m.count_capped(u128::MAX);
        let front: Vec<T> = m.points().take(k).map(T::at).collect();
        let mut back: Vec<T> = m.0.iter().rev().flat_map(|&(l, h)| (l..=h).rev()).take(k).map(T::at).collect();
        back.reverse();
        iters::ends_of_long(&format!("{what}: iter()"), s.iter(), total, &front, &back, sched)?;
        iters::ends_of_long(&format!("{what}: (&s).into_iter()"), s.into_iter(), total, &front, &back, sched)?;
        iters::ends_of_long(&format!("{what}: into_iter()"), s.clone().into_iter(), total, &front, &back, sched)
    }
}
