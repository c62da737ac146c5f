//! C07-C13: selections over finite point types.
use nicheck::fin::*;
use nicheck::iters;
use nicheck::run::{guard, Fail, Obs, Prop, Sink};
use nicheck::sel::*;
use nicheck::with_ty;
use normalize_interval::{Bound, Interval, Selection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashSet, VecDeque};

fn err<T>(m: String) -> Result<T, String> { Err(m) }

/// Registers 0 and 1 filled from intervals, then a few free steps.
fn filled(steps: usize) -> BoxedStrategy<Hist> {
    let v = || proptest::collection::vec(iv_ne(), 1..6);
    let usual = (scfg(), v(), v(), proptest::collection::vec(sop(), 0..=steps)).prop_map(|(cfg, a, b, rest)| {
        let mut ops = vec![SOp::Ivs(0, a), SOp::Ivs(1, b)];
        ops.extend(rest);
        Hist { cfg, ops }
    });
    // Two selections of many intervals.
    let large = (large(3), comb()).prop_map(|(mut h, mut c)| {
        if let SOp::Comb { r, .. } = &mut c { *r = 1; }
        h.ops.push(c);
        h
    });
    prop_oneof![200 * LARGE => usual, 200 => large, 1 => huge()].boxed()
}

fn set_labels(o: &mut Obs, last: u128, m: &Set) {
    o.label(match m.0.len() { 0 => "no interval", 1 => "one interval", 2 => "two intervals", 3..=9 => "3-9 intervals", 10..=31 => "10-31 intervals", 32..=99 => "32-99 intervals", _ => "100 or more intervals" });
    o.label_if(m.lo() == Some(0), "reaches the minimum");
    o.label_if(m.hi() == Some(last), "reaches the maximum");
    o.label_if(m.0.windows(2).any(|w| w[1].0 - w[0].1 == 2), "a gap of one point");
    o.label_if(m.0.iter().any(|r| r.0 == r.1), "a single-point interval");
}

/// The configurations whose subsets are enumerated: (types and anchors, how many points).
fn scopes(t: bool) -> Vec<(Cfg, u16)> {
    let c = |ty, n: u16, classes| (Cfg { ty, spread: n, classes }, n);
    let mut v = vec![c(Ty::S1, 1, 0), c(Ty::S2, 2, 0), c(Ty::S3, 3, 0), c(Ty::S7, 7, 0), c(Ty::I8, 4, 1), c(Ty::U8, 5, 0), c(Ty::I32, 5, 2), c(Ty::Rev, 4, 0), c(Ty::U128, 4, 1)];
    if t { v.extend([c(Ty::S10, 10, 0), c(Ty::U8, 8, 1), c(Ty::I128, 8, 0), c(Ty::Heap, 8, 1), c(Ty::U64, 6, 2)]); }
    v
}

// ---------------------------------------------------------------- C07
pub struct C07;
impl Prop for C07 {
    type Case = Hist;
    const ID: &'static str = "C07";
    const RULE: &'static str = "two selections built by a history of up to 10 steps over three registers (conversions, collections, in-place edits, whole-set operations); complement, union, intersection, difference and overlap test against range-set algebra, membership probed at every point of types with <=256 values; plus selections of up to 2,050 (thorough: 4,100) intervals and every pair of subsets of small types; non-trivial: both operands non-empty and one has two or more intervals";
    const N: (u64, u64) = (430_000, 13_800_000);
    fn strategy(t: bool) -> BoxedStrategy<Hist> { filled(if t { 14 } else { 8 }) }
    fn check(c: &Hist, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Hist, o: &mut Obs) -> Result<(), String> {
            let r = c.run::<T>();
            let (a, b, ma, mb) = (&r.sel[0], &r.sel[1], &r.set[0], &r.set[1]);
            o.nt(!ma.is_empty() && !mb.is_empty() && ma.0.len().max(mb.0.len()) >= 2);
            set_labels(o, T::LAST, ma);
            let (ka, kb) = (a.clone(), b.clone());
            let (ta, tb) = (show(a), show(b));
            let s = [ma, mb];
            points_are("the operand", a, ma, &s)?;
            points_are("the operand", b, mb, &s)?;
            points_are(&format!("complement of {ta}"), &a.complement(), &ma.complement(T::LAST), &s)?;
            points_are(&format!("complement of {tb}"), &b.complement(), &mb.complement(T::LAST), &s)?;
            points_are(&format!("{ta} union {tb}"), &a.union(b), &ma.union(mb), &s)?;
            points_are(&format!("{tb} union {ta}"), &b.union(a), &ma.union(mb), &s)?;
            let m = ma.intersect(mb);
            o.label(if m.is_empty() { "disjoint" } else { "overlapping" });
            points_are(&format!("{ta} intersect {tb}"), &a.intersect(b), &m, &s)?;
            points_are(&format!("{tb} intersect {ta}"), &b.intersect(a), &m, &s)?;
            points_are(&format!("{ta} minus {tb}"), &a.minus(b), &ma.minus(mb, T::LAST), &s)?;
            points_are(&format!("{tb} minus {ta}"), &b.minus(a), &mb.minus(ma, T::LAST), &s)?;
            points_are(&format!("{ta} minus itself"), &a.minus(a), &Set::empty(), &s)?;
            points_are(&format!("{ta} intersect itself"), &a.intersect(a), ma, &s)?;
            for (x, y, w, n) in [(a, b, !m.is_empty(), "a^b"), (b, a, !m.is_empty(), "b^a"), (a, a, !ma.is_empty(), "a^a")] {
                if x.intersects(y) != w { return err(format!("{} intersects {} ({n}): got {}, expected {w}", show(x), show(y), !w)); }
            }
            if a != &ka || b != &kb { return err(format!("an operand changed: {ta} or {tb}")); }
            points_are("the operand afterwards", a, ma, &s)?;
            points_are("the operand afterwards", b, mb, &s)
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) { if huges(if t { 4100 } else { 2050 }, k) { subset_pairs(t, k) } }
}
/// Selections of hundreds of intervals; false if the search is over.
fn huges<P: Prop<Case = Hist>>(max: u16, k: &mut Sink<P>) -> bool { huge_fixed(max).into_iter().all(|h| k.turn(|| h)) }
fn subset_pairs<P: Prop<Case = Hist>>(t: bool, k: &mut Sink<P>) {
    for (cfg, n) in scopes(t) {
        for a in 0..1u32 << n { for b in 0..1u32 << n {
            if !k.turn(|| {
                let mut ops = subset_ops(0, n, a, (a + b) as u8);
                ops.extend(subset_ops(1, n, b, (a / 3 + b / 7) as u8));
                Hist { cfg, ops }
            }) { return; }
        } }
    }
}

// ---------------------------------------------------------------- C08
pub struct C08;
impl Prop for C08 {
    type Case = Hist;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a selection from up to 6 free steps, then a history of in-place unions, intersections and differences, points compared with an ordinary set after every step; plus selections of up to 2,050 (thorough: 4,100) intervals, 24 (96) histories of 300 to 1,200 (4,000) edits, and breadth-first search over every selection state reachable over small whole types, every edit with every interval from each; non-trivial: at least 3 edits of at least two kinds and the selection non-empty after the second";
    const N: (u64, u64) = (940_000, 29_800_000);
    fn strategy(t: bool) -> BoxedStrategy<Hist> {
        let max = if t { 48 } else { 16 };
        let usual = (scfg(), proptest::collection::vec(sop(), 0..6), proptest::collection::vec(edit(), 1..=max)).prop_map(|(cfg, mut ops, e)| {
            ops.extend(e);
            Hist { cfg, ops }
        });
        let large = (large(3), prop_oneof![4 => proptest::collection::vec(edit(), 1..8), 1 => proptest::collection::vec(edit(), 1..if t { 200 } else { 60 })]).prop_map(|(mut h, e)| {
            h.ops.extend(e);
            h
        });
        prop_oneof![200 * LARGE => usual, 200 => large, 1 => huge()].boxed()
    }
    fn check(c: &Hist, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Hist, o: &mut Obs) -> Result<(), String> {
            let mut r = Regs::<T>::new();
            let (mut edits, mut kinds, mut late) = (0, [false; 3], false);
            for (i, op) in c.ops.iter().enumerate() {
                let w = r.apply(&c.cfg, op);
                let iv = match op { SOp::UniteIn(_, v) => { kinds[0] = true; Some(v) } SOp::MeetIn(_, v) => { kinds[1] = true; Some(v) }
                    SOp::TakeIn(_, v) => { kinds[2] = true; Some(v) } _ => None };
                let extra: Vec<u128> = iv.map_or(vec![], |v| v.coords().into_iter().map(|x| c.cfg.ix::<T>(x)).collect());
                if iv.is_some() { edits += 1; late |= edits > 2 && !r.set[w].is_empty(); }
                let last = i + 1 == c.ops.len();
                let what = || format!("after step {} {:?}", i + 1, op);
                if last || T::LAST < 16 { points_are(&what(), &r.sel[w], &r.set[w], &[])?; } else { points_near(&what(), &r.sel[w], &r.set[w], &extra)?; }
                if r.sel[w].is_empty() != r.set[w].is_empty() { return err(format!("{}: is_empty() = {}", what(), r.sel[w].is_empty())); }
                if last { set_labels(o, T::LAST, &r.set[w]); }
            }
            o.nt(edits >= 3 && late && kinds.iter().filter(|x| **x).count() >= 2);
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        if !huges(if t { 4100 } else { 2050 }, k) { return; }
        // Very long histories of edits.
        for i in 0..if t { 96 } else { 24u64 } { if !k.turn(|| very_long(i, if t { 4000 } else { 1200 })) { return; } }
        let c = |ty, n: u16, classes| (Cfg { ty, spread: n, classes }, n);
        let lines: [(Cfg, u16); 8] = if t { [c(Ty::S10, 10, 0), c(Ty::S7, 7, 0), c(Ty::U8, 8, 0), c(Ty::I8, 8, 1), c(Ty::I32, 8, 2), c(Ty::Rev, 8, 0), c(Ty::I128, 8, 1), c(Ty::Heap, 8, 0)] }
            else { [c(Ty::S7, 7, 0), c(Ty::S3, 3, 0), c(Ty::U8, 5, 0), c(Ty::I8, 5, 1), c(Ty::I32, 5, 2), c(Ty::S2, 2, 0), c(Ty::U128, 5, 1), c(Ty::S1, 1, 0)] };
        let (cfg, n) = lines[k.shard as usize % 8];
        fn go<T: Fin>(cfg: Cfg, n: u16, k: &mut Sink<C08>) -> Result<(), String> { search::<T>(cfg, n, k); Ok(()) }
        if let Err(e) = with_ty!(cfg.ty, go(cfg, n, k)) { eprintln!("ERROR harness: {e}"); std::process::exit(2) }
    }
}
/// History `i` of 300 to `max` edits, mostly short ones, with wide ones now and then.
fn very_long(i: u64, max: u64) -> Hist {
    let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut draw = |n: u64| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) % n };
    let n = [7u16, 5, 20, 64, 110, 200][i as usize % 6];
    let tys = if n <= 7 { [Ty::S7, Ty::U8, Ty::I128] } else if n <= 110 { [Ty::Heap, Ty::I8, Ty::U64] } else { [Ty::I32, Ty::Rev, Ty::U128] };
    let cfg = Cfg { ty: tys[i as usize / 6 % 3], spread: n, classes: (i % 3) as u8 };
    let len = if i % 3 == 0 { max } else { 300 + draw(max - 299) };
    let ops = (0..len).map(|_| {
        let (a, d, b, w, kind) = (draw(u64::from(n)) as u16, draw(4) as u16, draw(u64::from(n)) as u16, draw(40), draw(6));
        let e = (a + d).min(n - 1);
        let short = match kind { 0 | 1 => Iv::Closed(a, e), 2 => Iv::Sorted(draw(6) as u8, a, e), 3 => Iv::Point(a), 4 => Iv::Open(a, e), _ => Iv::Raw(draw(15) as u8, a, e) };
        let any = match kind { 0 => Iv::From(a), 1 => Iv::To(a), 2 => Iv::UpFrom(a), 3 => Iv::UpTo(a), _ => Iv::Closed(a.min(b), a.max(b)) };
        match w {
            0 => SOp::MeetIn(0, any),
            1 => SOp::UniteIn(0, any),
            2 => SOp::TakeIn(0, any),
            3..=21 => SOp::UniteIn(0, short),
            _ => SOp::TakeIn(0, short),
        }
    }).collect();
    Hist { cfg, ops }
}
/// Explores every selection state (by its structure) reachable with in-place edits.
fn search<T: Fin>(cfg: Cfg, n: u16, k: &mut Sink<C08>) {
    let mut ivs = all_ranges(n);
    ivs.extend([Iv::Full, Iv::To(n / 2), Iv::From(n / 2)]);
    let mut known: HashSet<String> = HashSet::new();
    let mut queue: VecDeque<(Selection<T>, Set, Vec<SOp>)> = VecDeque::new();
    queue.push_back((Selection::new(), Set::empty(), vec![]));
    known.insert(format!("{:?}", Selection::<T>::new()));
    while let Some((s, m, path)) = queue.pop_front() {
        for iv in &ivs { for kind in 0..3 {
            if k.done() { return; }
            let op = match kind { 0 => SOp::UniteIn(0, iv.clone()), 1 => SOp::MeetIn(0, iv.clone()), _ => SOp::TakeIn(0, iv.clone()) };
            let r = guard(|| {
                let mut r = Regs::<T>::new();
                r.sel[0] = s.clone();
                r.set[0] = m.clone();
                r.apply(&cfg, &op);
                if T::LAST < 16 { points_are("", &r.sel[0], &r.set[0], &[&m])?; } else { points_near("", &r.sel[0], &r.set[0], &[cfg.ix::<T>(0), cfg.ix::<T>(n - 1)])?; }
                let [s, _, _] = r.sel;
                let [m, _, _] = r.set;
                Ok((s, m))
            });
            let mut p = path.clone();
            p.push(op);
            k.step(hash(&(&cfg, &m, iv, kind)), !m.is_empty());
            match r {
                Ok((s2, m2)) => {
                    let key = format!("{s2:?}");
                    if !known.contains(&key) && known.len() < 20_000 { known.insert(key); queue.push_back((s2, m2, p)); }
                }
                Err(Fail::Harness(e)) => { eprintln!("ERROR harness in search: {e}"); std::process::exit(2) }
                Err(Fail::Violation(_)) => { k.eval(Hist { cfg, ops: p }); if k.done() { return; } }
            }
        } }
    }
}

// ---------------------------------------------------------------- C09
/// Every query and listing, as one comparable value.
fn answers<T: Fin>(s: &Selection<T>, m: &Set) -> String {
    let pts: Option<Vec<T>> = if m.count_capped(64) <= 64 { Some(s.iter().take(80).collect()) } else { None };
    format!("{:?}", (
        (s.lower_bound(), s.upper_bound(), s.infimum(), s.supremum(), s.is_empty(), s.is_full(), s.is_bounded()),
        (s.is_left_bounded(), s.is_right_bounded(), s.is_half_bounded(), s.enclose(), s.closure()),
        s.interval_iter().take(600).collect::<Vec<_>>(), s.interval_iter().rev().take(600).collect::<Vec<_>>(), pts,
    ))
}
fn twins<T: Fin>(how: &str, a: &Selection<T>, b: &Selection<T>) -> Result<(), String> {
    match unlike(a, b) { None => Ok(()), Some(e) => err(format!("{how}: {} and {} have the same points but are {e}", show(a), show(b))) }
}
pub struct C09;
impl Prop for C09 {
    type Case = Hist;
    const ID: &'static str = "C09";
    const RULE: &'static str = "three selections from one history; each compared by ==, hash and every query with seven rebuilds of its points and with the others, algebraic identities over them checked as equalities of values, and each compared with its neighbours by one point; plus selections of up to 2,050 intervals and all pairs of subsets of small types; non-trivial: two of them non-empty, one with two or more intervals";
    const N: (u64, u64) = (250_000, 8_100_000);
    fn strategy(t: bool) -> BoxedStrategy<Hist> { filled(if t { 16 } else { 9 }) }
    fn check(c: &Hist, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Hist, o: &mut Obs) -> Result<(), String> {
            let r = c.run::<T>();
            let n = r.set.iter().filter(|m| !m.is_empty()).count();
            o.nt(n >= 2 && r.set.iter().any(|m| m.0.len() >= 2));
            set_labels(o, T::LAST, &r.set[0]);
            for i in 0..3 {
                let (s, m) = (&r.sel[i], &r.set[i]);
                if let Some(e) = cloned(s, r.sel.iter().cloned().chain([Selection::full()])) { return err(format!("{} is {e}", show(s))); }
                let (h, q) = (hash(s), answers(s, m));
                let parts: Vec<Interval<T>> = m.0.iter().map(|&x| iv_of(x)).collect();
                let mut made: Vec<(&str, Selection<T>)> = vec![
                    ("intervals collected", parts.iter().cloned().collect()),
                    ("intervals collected in reverse", parts.iter().rev().cloned().collect()),
                ];
                let mut x = Selection::full();
                for &g in &m.complement(T::LAST).0 { x.minus_in_place(iv_of(g)); }
                made.push(("full less the gaps", x));
                let mut x = Selection::new();
                for p in &parts { x.union_in_place(p.clone()); }
                made.push(("intervals united in place", x));
                made.push(("selections united", parts.iter().fold(Selection::new(), |a, p| a.union(&p.clone().into()))));
                if let Some(hull) = m.hull() {
                    let gaps: Selection<T> = m.complement(T::LAST).0.iter().map(|&g| iv_of(g)).collect();
                    let mut x = gaps.complement();
                    x.intersect_in_place(iv_of(hull));
                    made.push(("gaps complemented, cut to the hull", x));
                }
                if m.count_capped(100) <= 100 { made.push(("points collected", m.points().map(T::at).collect())); }
                for (how, v) in &made {
                    twins(how, s, v)?;
                    if hash(v) != h { return err(format!("{how}: hash differs")); }
                    if answers(v, m) != q { return err(format!("{} ({how}) answers {}, but {} answers {q}", show(v), answers(v, m), show(s))); }
                }
                // Selections that differ by one point.
                let mut near: Vec<u128> = vec![0, T::LAST];
                for &(l, h) in &m.0 { near.extend([l, h]); if l > 0 { near.push(l - 1); } if h < T::LAST { near.push(h + 1); } }
                near.sort();
                near.dedup();
                near.truncate(24);
                for x in near {
                    let mut t = s.clone();
                    if m.has(x) { t.minus_in_place(iv_of((x, x))); } else { t.union_in_place(iv_of((x, x))); }
                    if !compares(&t, s, false) { return err(format!("{} and {} differ at {:?} but are equal", show(s), show(&t), T::at(x))); }
                    // Undoing the change gives the same value again.
                    if m.has(x) { t.union_in_place(iv_of((x, x))); } else { t.minus_in_place(iv_of((x, x))); }
                    twins("one point toggled twice", s, &t)?;
                }
            }
            for i in 0..3 { for j in 0..3 {
                let want = r.set[i] == r.set[j];
                if !compares(&r.sel[i], &r.sel[j], want) { return err(format!("{} == {} is {}, expected {want}", show(&r.sel[i]), show(&r.sel[j]), !want)); }
                o.label_if(i < j && want && !r.set[i].is_empty(), "two registers with the same points");
            } }
            let [a, b, d] = &r.sel;
            twins("double complement", a, &a.complement().complement())?;
            twins("a u ~a", &a.union(&a.complement()), &Selection::full())?;
            twins("a ^ ~a", &a.intersect(&a.complement()), &Selection::empty())?;
            twins("De Morgan (union)", &a.union(b).complement(), &a.complement().intersect(&b.complement()))?;
            twins("De Morgan (intersection)", &a.intersect(b).complement(), &a.complement().union(&b.complement()))?;
            twins("a - b = a ^ ~b", &a.minus(b), &a.intersect(&b.complement()))?;
            twins("absorption", a, &a.union(&a.intersect(b)))?;
            twins("absorption", a, &a.intersect(&a.union(b)))?;
            twins("a u b = b u a", &a.union(b), &b.union(a))?;
            twins("a ^ b = b ^ a", &a.intersect(b), &b.intersect(a))?;
            twins("(a u b) u c", &a.union(b).union(d), &a.union(&b.union(d)))?;
            twins("(a ^ b) ^ c", &a.intersect(b).intersect(d), &a.intersect(&b.intersect(d)))?;
            twins("distributivity", &a.intersect(&b.union(d)), &a.intersect(b).union(&a.intersect(d)))?;
            twins("distributivity", &a.union(&b.intersect(d)), &a.union(b).intersect(&a.union(d)))?;
            twins("a = (a - b) u (a ^ b)", a, &a.minus(b).union(&a.intersect(b)))?;
            twins("idempotence", a, &a.union(a))?;
            twins("idempotence", a, &a.intersect(a))
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        if !huges(2050, k) { return; }
        for (cfg, n) in scopes(t) {
            for a in 0..1u32 << n { for how in 0..6u8 {
                // A second subset that varies with the first, built another way.
                let b = a.wrapping_mul(2_654_435_761).rotate_left(how as u32 * 5) & ((1 << n) - 1);
                let c = (a ^ (b >> 1)) & ((1 << n) - 1);
                if !k.turn(|| {
                    let mut ops = subset_ops(0, n, a, how);
                    ops.extend(subset_ops(1, n, b, how + 1));
                    ops.extend(subset_ops(2, n, c, how + 3));
                    Hist { cfg, ops }
                }) { return; }
            } }
        }
        // All pairs of the smaller scopes, so that equality is compared across every two subsets.
        for (cfg, n) in scopes(t).into_iter().filter(|s| s.1 <= if t { 7 } else { 5 }) {
            for a in 0..1u32 << n { for b in 0..1u32 << n {
                if !k.turn(|| {
                    let mut ops = subset_ops(0, n, a, (a + b) as u8);
                    ops.extend(subset_ops(1, n, b, (a / 3 + b / 7) as u8));
                    Hist { cfg, ops }
                }) { return; }
            } }
        }
    }
}

// ---------------------------------------------------------------- C10, C11
/// A history and the steps at which its first register is read from either end.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Read { pub hist: Hist, pub sched: Vec<u8> }
fn read(t: bool) -> BoxedStrategy<Read> {
    let many = (scfg(), proptest::collection::vec(iv_ne(), 1..10), proptest::collection::vec(sop(), 0..5))
        .prop_map(|(cfg, a, rest)| { let mut ops = vec![SOp::Ivs(0, a)]; ops.extend(rest); Hist { cfg, ops } });
    // Points and gaps side by side: as many intervals as there can be.
    let dense = (scfg(), proptest::collection::vec(coord(), 1..16), any::<bool>())
        .prop_map(|(cfg, p, not)| {
            let mut ops = vec![SOp::Points(0, p)];
            if not { ops.push(SOp::Complement(0, 0)); }
            Hist { cfg, ops }
        });
    let sched = nicheck::iters::schedule(if t { 60 } else { 24 });
    (prop_oneof![12 => many, 6 => dense, 6 => hist(if t { 20 } else { 10 }), 1 => large(3)], sched).prop_map(|(hist, sched)| Read { hist, sched }).boxed()
}
fn reads<P: Prop<Case = Read>>(t: bool, k: &mut Sink<P>, points: bool) {
    // Many points, many intervals, read whole.
    for ty in [Ty::U16, Ty::I16] {
        let cfg = Cfg { ty, spread: 30, classes: 0 };
        let comb = |r, count, how| SOp::Comb { r, start: 0, step: 3, len: 2, count, how };
        let mut built = vec![vec![comb(0, 1200, 0)], vec![comb(0, 700, 4), SOp::Complement(0, 0)], vec![SOp::Full(0), comb(0, 300, 3 + 8)]];
        if points { built.push(vec![SOp::Full(0)]); }
        for ops in built { for sched in nicheck::iters::long_schedules() {
            if !k.turn(|| Read { hist: Hist { cfg, ops: ops.clone() }, sched }) { return; }
        } }
    }
    for (cfg, n) in scopes(t) {
        for a in 0..1u32 << n { for how in 0..6u8 {
            if !k.turn(|| Read { hist: Hist { cfg, ops: subset_ops(0, n, a, how) }, sched: vec![how & 1, a as u8 & 1, how >> 1 & 1] }) { return; }
        } }
        // Every interleaving of steps for every subset of the smaller ones.
        let len = if t { 7 } else { 5 };
        if n <= len {
            for a in 0..1u32 << n {
                let l = if points { a.count_ones() } else { n as u32 / 2 + 1 };
                for s in 0..1u32 << l {
                    if !k.turn(|| Read { hist: Hist { cfg, ops: subset_ops(0, n, a, (a % 6) as u8) }, sched: (0..l).map(|i| (s >> i & 1) as u8).collect() }) { return; }
                }
            }
        }
    }
}
fn read_labels(o: &mut Obs, last: u128, m: &Set, sched: &[u8]) {
    set_labels(o, last, m);
    o.label_if(sched.iter().any(|s| nicheck::iters::back(*s)) && !sched.iter().all(|s| nicheck::iters::back(*s)), "steps from both ends");
}
pub struct C10;
impl Prop for C10 {
    type Case = Read;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a selection from a history (or dense points and their complement) and a schedule of front and back steps; borrowed and owned interval listings read forward, backward and by the schedule against the model's maximal ranges; plus every subset of small types with every schedule; non-trivial: two or more intervals";
    const N: (u64, u64) = (1_500_000, 47_200_000);
    fn strategy(t: bool) -> BoxedStrategy<Read> { read(t) }
    fn check(c: &Read, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Read, o: &mut Obs) -> Result<(), String> {
            let r = c.hist.run::<T>();
            let (s, m) = (&r.sel[0], &r.set[0]);
            read_labels(o, T::LAST, m, &c.sched);
            o.nt(m.0.len() >= 2);
            listing_is(&show(s), s, m, &c.sched)?;
            for (i, r) in s.interval_iter().zip(&m.0).take(40) {
                if i.lower_bound() != Some(Bound::Include(T::at(r.0))) || i.upper_bound() != Some(Bound::Include(T::at(r.1))) {
                    return err(format!("{} lists {} where its interval is {:?}..={:?}", show(s), show(&i), T::at(r.0), T::at(r.1)));
                }
            }
            Ok(())
        }
        with_ty!(c.hist.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) { reads(t, k, false) }
}
pub struct C11;
impl Prop for C11 {
    type Case = Read;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a selection from a history (or dense points and their complement) and a schedule of front and back steps; borrowed and owned point iteration read forward, backward and by the schedule against the model's points (up to 700 points in full, else both ends); plus every subset of small types with every schedule; non-trivial: two or more intervals and at least three points";
    const N: (u64, u64) = (750_000, 23_600_000);
    fn strategy(t: bool) -> BoxedStrategy<Read> { read(t) }
    fn check(c: &Read, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Read, o: &mut Obs) -> Result<(), String> {
            let r = c.hist.run::<T>();
            let (s, m) = (&r.sel[0], &r.set[0]);
            read_labels(o, T::LAST, m, &c.sched);
            o.nt(m.0.len() >= 2 && m.count_capped(3) >= 3);
            o.label_if(m.count_capped(700) > 700, "too many points to read in full");
            iteration_is(&show(s), s, m, &c.sched)
        }
        with_ty!(c.hist.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) { reads(t, k, true) }
}

// ---------------------------------------------------------------- C12
pub struct C12;
impl Prop for C12 {
    type Case = Hist;
    const ID: &'static str = "C12";
    const RULE: &'static str = "three selections from one history; every query of each against its points in the model; plus selections of up to 2,050 (thorough: 4,100) intervals and every subset of small types built six ways; non-trivial: the first is non-empty and not full";
    const N: (u64, u64) = (920_000, 29_000_000);
    fn strategy(t: bool) -> BoxedStrategy<Hist> { prop_oneof![2 => filled(if t { 14 } else { 8 }), 1 => hist(if t { 20 } else { 8 })].boxed() }
    fn check(c: &Hist, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Hist, o: &mut Obs) -> Result<(), String> {
            let r = c.run::<T>();
            for i in 0..3 {
                let (s, m) = (&r.sel[i], &r.set[i]);
                let full = m.0 == [(0, T::LAST)];
                if i == 0 { set_labels(o, T::LAST, m); o.nt(!m.is_empty() && !full); o.label_if(full, "full"); }
                let what = show(s);
                points_are(&what, s, m, &[])?;
                let b = |got: bool, want: bool, n: &str| if got == want { Ok(()) } else { err(format!("{what}: {n} is {got}, expected {want} for index ranges {}", show(&m.0))) };
                b(s.is_empty(), m.is_empty(), "is_empty()")?;
                b(s.is_full(), full, "is_full()")?;
                b(s.is_bounded(), true, "is_bounded()")?;
                b(s.is_left_bounded(), true, "is_left_bounded()")?;
                b(s.is_right_bounded(), true, "is_right_bounded()")?;
                b(s.is_half_bounded(), false, "is_half_bounded()")?;
                let (lb, ub) = (m.lo().map(|x| Bound::Include(T::at(x))), m.hi().map(|x| Bound::Include(T::at(x))));
                if s.lower_bound() != lb { return err(format!("{what}: lower_bound() is {:?}, expected {lb:?}", s.lower_bound())); }
                if s.upper_bound() != ub { return err(format!("{what}: upper_bound() is {:?}, expected {ub:?}", s.upper_bound())); }
                iv_is(&format!("{what}.enclose()"), &s.enclose(), m.hull())?;
                iv_is(&format!("{what}.closure()"), &s.closure(), m.hull())?;
                let want: Interval<T> = m.hull().map_or(Interval::empty(), iv_of);
                if s.enclose() != want { return err(format!("{what}.enclose() = {}, expected {}", show(&s.enclose()), show(&want))); }
                if s.closure() != want { return err(format!("{what}.closure() = {}, expected {}", show(&s.closure()), show(&want))); }
                // The extreme point or its outer neighbour.
                let inf = s.infimum().map(|x| x.ix());
                let sup = s.supremum().map(|x| x.ix());
                let ok = match (m.lo(), inf) { (None, x) => x.is_none(), (Some(0), None) => true, (Some(_), None) => false, (Some(l), Some(x)) => x == l || x.checked_add(1) == Some(l) };
                if !ok { return err(format!("{what}: infimum() is {:?}, lowest point {:?}", s.infimum(), m.lo().map(T::at))); }
                let ok = match (m.hi(), sup) { (None, x) => x.is_none(), (Some(h), None) => h == T::LAST, (Some(h), Some(x)) => x == h || h.checked_add(1) == Some(x) };
                if !ok { return err(format!("{what}: supremum() is {:?}, highest point {:?}", s.supremum(), m.hi().map(T::at))); }
                // Only the points matter.
                let t: Selection<T> = m.0.iter().rev().map(|&x| iv_of(x)).collect();
                if t.infimum() != s.infimum() || t.supremum() != s.supremum() {
                    return err(format!("{what}: infimum/supremum {:?} {:?}, but {} with the same points gives {:?} {:?}", s.infimum(), s.supremum(), show(&t), t.infimum(), t.supremum()));
                }
            }
            Ok(())
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        if !huges(if t { 4100 } else { 2050 }, k) { return; }
        for (cfg, n) in scopes(t) {
            for a in 0..1u32 << n { for how in 0..6u8 { if !k.turn(|| Hist { cfg, ops: subset_ops(0, n, a, how) }) { return; } } }
        }
    }
}

// ---------------------------------------------------------------- C13
/// A collection to build from, a reordering of it, a base to extend, and how to group it.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Coll { pub cfg: Cfg, pub base: Vec<SOp>, pub ivs: Vec<Iv>, pub pts: Vec<Coord>, pub perm: Vec<u16>, pub dup: Vec<bool>, pub cut: u8 }

/// Sorts items by random keys, repeating those marked.
fn reorder<X: Clone>(v: &[X], perm: &[u16], dup: &[bool]) -> Vec<X> {
    let mut k: Vec<(u16, usize)> = vec![];
    for i in 0..v.len() {
        k.push((perm.get(i).copied().unwrap_or(0), i));
        if dup.get(i).copied().unwrap_or(false) { k.push((perm.get(i).copied().unwrap_or(0).rotate_left(7), i)); }
    }
    k.sort();
    k.into_iter().map(|(_, i)| v[i].clone()).collect()
}
fn permutations(n: usize) -> Vec<Vec<u16>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in permutations(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n as u16 - 1); out.push(q); } }
    out
}
pub struct C13;
impl Prop for C13 {
    type Case = Coll;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a sequence of intervals and one of points over a finite type, collected, extended onto a base selection and converted one by one, in the given order and in a reordering with duplicates, whole and in two groups, against the union of ranges; plus sequences of up to 300 (thorough: 1,030) and every order of up to 3 (thorough: 4) ranges of small types; non-trivial: at least two non-empty intervals, or three points";
    const N: (u64, u64) = (300_000, 9_600_000);
    fn strategy(t: bool) -> BoxedStrategy<Coll> {
        let n = if t { 24 } else { 12 };
        let many = (scfg(), 12usize..100, any::<bool>()).prop_flat_map(|(cfg, n, wide)| {
            let cfg = Cfg { spread: if wide { 2000 } else { 256 }, ..cfg };
            let short = prop_oneof![3 => (coord(), 0u16..4).prop_map(|(a, d)| Iv::Closed(a, (a & 0xe000) | ((a & 0x1fff) + d).min(0x1fff))), 3 => coord().prop_map(Iv::Point), 1 => prop_oneof![9 => coord().prop_map(Iv::Point), 1 => iv_ne()]];
            (Just(cfg), proptest::collection::vec(sop(), 0..2), proptest::collection::vec(short, n), proptest::collection::vec(coord(), n),
                proptest::collection::vec(any::<u16>(), n), proptest::collection::vec(proptest::bool::weighted(0.2), n), any::<u8>())
        });
        let usual = (scfg(), proptest::collection::vec(sop(), 0..4), proptest::collection::vec(iv_ne(), 0..n), proptest::collection::vec(coord(), 0..n),
            proptest::collection::vec(any::<u16>(), n), proptest::collection::vec(proptest::bool::weighted(0.2), n), any::<u8>());
        prop_oneof![LARGE => usual, 1 => many]
            .prop_map(|(cfg, base, ivs, pts, perm, dup, cut)| Coll { cfg, base, ivs, pts, perm, dup, cut }).boxed()
    }
    fn check(c: &Coll, o: &mut Obs) -> Result<(), String> {
        fn go<T: Fin>(c: &Coll, o: &mut Obs) -> Result<(), String> {
            let (v, m) = ivs::<T>(&c.cfg, &c.ivs);
            let n = v.iter().filter(|i| !i.is_empty()).count();
            o.nt(n >= 2 || c.pts.len() >= 3);
            o.label_if(n < v.len(), "an empty interval among them");
            set_labels(o, T::LAST, &m);
            let w = reorder(&v, &c.perm, &c.dup);
            let cut = if w.is_empty() { 0 } else { c.cut as usize % (w.len() + 1) };
            let sum: Selection<T> = v.iter().cloned().collect();
            points_are("intervals collected", &sum, &m, &[])?;
            let same = |how: &str, s: &Selection<T>, want: &Selection<T>, m: &Set| -> Result<(), String> {
                points_are(how, s, m, &[])?;
                if s != want { return err(format!("{how}: {} differs from {}", show(s), show(want))); }
                Ok(())
            };
            same("the intervals reordered", &w.iter().cloned().collect(), &sum, &m)?;
            same("the intervals, one at a time", &iters::lazily(&w).collect(), &sum, &m)?;
            let mut s: Selection<T> = w[..cut].iter().cloned().collect();
            s.extend(iters::lazily(&w[cut..]));
            same("collected, then extended one at a time", &s, &sum, &m)?;
            same("the intervals reversed", &v.iter().rev().cloned().collect(), &sum, &m)?;
            let mut s: Selection<T> = w[..cut].iter().cloned().collect();
            s.extend(w[cut..].iter().cloned());
            same("collected, then extended", &s, &sum, &m)?;
            let mut s: Selection<T> = Selection::new();
            for x in &w { s.extend(std::iter::once(x.clone())); }
            same("extended one by one", &s, &sum, &m)?;
            let a: Selection<T> = w[..cut].iter().cloned().collect();
            let b: Selection<T> = w[cut..].iter().cloned().collect();
            same("two groups united", &a.union(&b), &sum, &m)?;
            for (i, r) in v.iter().zip(c.ivs.iter().map(|x| x.build::<T>(&c.cfg).1)).take(6) {
                let s: Selection<T> = i.clone().into();
                points_are(&format!("{} converted", show(i)), &s, &Set::range(r), &[])?;
                if s != std::iter::once(i.clone()).collect() { return err(format!("{} converted differs from it collected", show(i))); }
            }
            // Points.
            let mp = Set::from_ranges(c.pts.iter().map(|x| { let x = c.cfg.ix::<T>(*x); (x, x) }).collect());
            let p: Vec<T> = c.pts.iter().map(|x| c.cfg.pt::<T>(*x)).collect();
            let sp: Selection<T> = p.iter().cloned().collect();
            points_are("points collected", &sp, &mp, &[])?;
            same("the points reordered", &reorder(&p, &c.perm, &c.dup).into_iter().collect(), &sp, &mp)?;
            same("the points, one at a time", &iters::lazily(&reorder(&p, &c.perm, &c.dup)).collect(), &sp, &mp)?;
            same("the points as intervals", &p.iter().cloned().map(Interval::point).collect(), &sp, &mp)?;
            let mut s = sp.clone();
            s.extend(std::iter::empty());
            same("extended by nothing", &s, &sp, &mp)?;
            // From another selection's listings.
            same("its own intervals", &sum.interval_iter().collect(), &sum, &m)?;
            same("its own intervals, reversed", &sum.clone().into_interval_iter().rev().collect(), &sum, &m)?;
            if m.count_capped(300) <= 300 {
                same("its own points", &sum.iter().take(400).collect(), &sum, &m)?;
                same("its own points, owned and reversed", &sum.clone().into_iter().rev().take(400).collect(), &sum, &m)?;
            }
            same("a selection's own points", &sp.iter().take(mp.count_capped(1 << 17) as usize + 2).collect(), &sp, &mp)?;
            // Extending any selection.
            let r = Hist { cfg: c.cfg, ops: c.base.clone() }.run::<T>();
            let (mut x, mx) = (r.sel[0].clone(), r.set[0].union(&m));
            let mut y = x.clone();
            x.extend(v.iter().cloned());
            points_are(&format!("{} extended", show(&y)), &x, &mx, &[&r.set[0], &m])?;
            y.extend(w[cut..].iter().cloned());
            y.extend(w[..cut].iter().cloned());
            same("the base extended in another order", &y, &x, &mx)
        }
        with_ty!(c.cfg.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        let c = |ty, n: u16, classes| (Cfg { ty, spread: n, classes }, n);
        let len = if t { 4 } else { 3 };
        // Hundreds of intervals and points, in mixed orders.
        for (i, l) in [65u16, 129, 257, 300, 520, 1030, 2050].into_iter().filter(|l| t || *l <= 1030).enumerate() { for ty in [Ty::U16, Ty::I32, Ty::I128] {
            let cfg = Cfg { ty, spread: 8000, classes: if i % 2 == 0 { 0 } else { 2 } };
            let ivs = (0..l).map(|j| match j % 4 { 0 => Iv::Closed(5 * j, 5 * j + 2), 1 => Iv::Point(5 * j + 1), 2 => Iv::Open(5 * j, 5 * j + 3), _ => Iv::LeftOpen(5 * j - 1, 5 * j + i as u16) }).collect();
            let pts = (0..l).map(|j| j * 3 % 1021 * 2).collect();
            let perm = (0..l).map(|j| j.wrapping_mul(40_503)).collect();
            if !k.turn(|| Coll { cfg, base: vec![SOp::Ivs(0, vec![Iv::Closed(100, 130), Iv::Point(7)])], ivs, pts, perm, dup: (0..l).map(|j| j % 5 == 0).collect(), cut: 77 }) { return; }
        } }
        for (cfg, n) in [c(Ty::S1, 1, 0), c(Ty::S2, 2, 0), c(Ty::S3, 3, 0), c(Ty::U8, 3, 1), c(Ty::I32, 3, 2), c(Ty::S7, if t { 4 } else { 3 }, 0)] {
            let rs = all_ranges(n);
            for l in 0..=len {
                let total = (rs.len() as u32).pow(l);
                for code in 0..total {
                    let mut x = code as usize;
                    let v: Vec<Iv> = (0..l).map(|_| { let i = x % rs.len(); x /= rs.len(); rs[i].clone() }).collect();
                    let ps = permutations(l as usize);
                    let perm = ps[code as usize % ps.len()].clone();
                    if !k.turn(|| Coll { cfg, base: vec![], ivs: v.clone(), pts: (0..l as u16).map(|i| (code as u16 >> i) % n).collect(), perm, dup: vec![code % 3 == 0; 1], cut: code as u8 }) { return; }
                }
            }
        }
    }
}
