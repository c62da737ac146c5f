//! Checks of double-ended iterators against the expected sequence.
use proptest::prelude::*;
use std::fmt::Debug;

/// A schedule step reads from the front (even) or the back (odd), skipping `step / 2` items (from
/// 250 on, as many as can be asked for).
pub fn back(s: u8) -> bool { s % 2 == 1 }
fn skip(s: u8) -> usize { if s >= 250 { usize::MAX } else { usize::from(s >> 1) } }
/// At most this many items are read off a sequence too long to finish.
pub const LONG: usize = 600;
/// As a schedule's first entry: read the sequence whole, however long (up to `WHOLE_MAX` items).
pub const WHOLE: u8 = 255;
pub const WHOLE_MAX: u128 = 70_000;
/// The schedule without that entry, and whether it was there.
pub fn unmarked(sched: &[u8]) -> (&[u8], bool) { if sched.first() == Some(&WHOLE) { (&sched[1..], true) } else { (sched, false) } }
/// Schedules to read long sequences by.
pub fn long_schedules() -> Vec<Vec<u8>> {
    let mix = |n: usize| (0..n).map(|i| (i * i / 7 % 2) as u8);
    vec![vec![WHOLE], std::iter::once(WHOLE).chain(mix(1001)).collect(), std::iter::once(WHOLE).chain(mix(3000).map(|s| s + 18)).collect(),
        std::iter::once(WHOLE).chain(std::iter::repeat(1).take(40_000)).collect(), std::iter::once(WHOLE).chain(std::iter::repeat(0).take(65_535)).collect()]
}
/// How many items a schedule may read from one end of a long sequence.
pub fn reach(sched: &[u8]) -> usize { sched.iter().map(|s| skip(*s).saturating_add(1)).fold(0, usize::saturating_add).min(LONG) }

/// Front and back steps in any order, in runs, or with skips.
pub fn schedule(max: usize) -> BoxedStrategy<Vec<u8>> {
    let runs = proptest::collection::vec((0u8..2, 1usize..(max / 3).max(2)), 0..5)
        .prop_map(move |v| v.into_iter().flat_map(|(s, n)| std::iter::repeat(s).take(n)).take(max).collect());
    prop_oneof![
        5 => proptest::collection::vec(0u8..2, 0..max),
        2 => runs,
        2 => proptest::collection::vec(prop_oneof![160 => 0u8..2, 40 => 2u8..18, 1 => 250u8..254], 0..max),
    ].boxed()
}

/// Steps through `it` from both ends as `sched` says (afterwards alternating), comparing with
/// `want`; then checks that it stays exhausted.
pub fn both_ends<X, I>(what: &str, mut it: I, want: &[X], sched: &[u8]) -> Result<(), String>
where X: PartialEq + Debug, I: Iterator<Item = X> + DoubleEndedIterator {
    let (mut i, mut j) = (0, want.len());
    let mut k = 0usize;
    loop {
        hint(what, &it, (j - i) as u128)?;
        let s = if k < sched.len() { sched[k] } else { ((k + sched.len()) % 2) as u8 };
        k += 1;
        let (got, exp) = step(&mut it, s, want, &mut i, &mut j);
        if got.as_ref() != exp {
            return Err(format!("{what}: step {k} from the {}{}: got {:?}, expected {:?} (steps {:?})",
                if back(s) { "back" } else { "front" }, if s > 1 { format!(" skipping {}", skip(s)) } else { String::new() }, got, exp, &sched[..sched.len().min(k)]));
        }
        if exp.is_none() && i == j { break; }
    }
    for step in 0..6 {
        let got = if (step + k) % 2 == 0 { it.next() } else { it.next_back() };
        if got.is_some() { return Err(format!("{what}: yields {:?} after it was exhausted", got)); }
    }
    if it.size_hint().0 != 0 { return Err(format!("{what}: size_hint {:?} after it was exhausted", it.size_hint())); }
    Ok(())
}
fn hint<I: Iterator>(what: &str, it: &I, left: u128) -> Result<(), String> {
    let (lo, hi) = it.size_hint();
    if lo as u128 > left || hi.is_some_and(|h| (h as u128) < left) { return Err(format!("{what}: size_hint {:?} with {left} items left", (lo, hi))); }
    Ok(())
}
fn step<'a, X, I: Iterator<Item = X> + DoubleEndedIterator>(it: &mut I, s: u8, want: &'a [X], i: &mut usize, j: &mut usize) -> (Option<X>, Option<&'a X>) {
    let n = skip(s);
    let exp = if n >= *j - *i { *i = *j; None }
        else if back(s) { *j -= n + 1; Some(&want[*j]) }
        else { *i += n + 1; Some(&want[*i - 1]) };
    let got = match (back(s), n) { (false, 0) => it.next(), (true, 0) => it.next_back(), (false, n) => it.nth(n), (true, n) => it.nth_back(n) };
    (got, exp)
}

/// As `both_ends` for sequences too long to finish: `front` and `back` are the first and last
/// items, as many as the schedule can reach, of `total` (at least as many as can be read).
pub fn ends_of_long<X, I>(what: &str, mut it: I, total: u128, front: &[X], backs: &[X], sched: &[u8]) -> Result<(), String>
where X: PartialEq + Debug, I: Iterator<Item = X> + DoubleEndedIterator {
    let (mut i, mut j) = (0, 0);
    for (k, &s) in sched.iter().enumerate() {
        hint(what, &it, total - (i + j) as u128)?;
        let n = skip(s);
        if n > LONG || i + j + n + 1 > LONG { break; }
        let exp = if back(s) { j += n + 1; backs.len().checked_sub(j).and_then(|x| backs.get(x)) } else { i += n + 1; front.get(i - 1) };
        let Some(exp) = exp else { break };
        let got = match (back(s), n) { (false, 0) => it.next(), (true, 0) => it.next_back(), (false, n) => it.nth(n), (true, n) => it.nth_back(n) };
        if got.as_ref() != Some(exp) {
            return Err(format!("{what}: step {} from the {}{}: got {:?}, expected {:?}", k + 1, if back(s) { "back" } else { "front" },
                if s > 1 { format!(" skipping {n}") } else { String::new() }, got, exp));
        }
    }
    Ok(())
}

/// Whole-sequence reads, from the start and after some steps: forward, reverse, count, last,
/// nth, folds.
pub fn whole<X, I>(what: &str, make: impl Fn() -> I, want: &[X], sched: &[u8], k: usize) -> Result<(), String>
where X: PartialEq + Debug + Clone, I: Iterator<Item = X> + DoubleEndedIterator {
    let cap = want.len() + 2;
    let f: Vec<X> = make().take(cap).collect();
    if f != want { return Err(format!("{what}: forward gives {}, expected {}", short(&f), short(want))); }
    let mut r: Vec<X> = make().rev().take(cap).collect();
    r.reverse();
    if r != want { return Err(format!("{what}: reversed gives {}, expected {}", short(&r), short(want))); }
    // The forward read above ended, so these end as well.
    if make().count() != want.len() { return Err(format!("{what}: count() is not {}", want.len())); }
    if make().last().as_ref() != want.last() { return Err(format!("{what}: last() is not {:?}", want.last())); }
    let k = (sched.len() + k) % (want.len() + 1);
    if make().nth(k).as_ref() != want.get(k) { return Err(format!("{what}: nth({k}) is not {:?}", want.get(k))); }
    let exp = want.len().checked_sub(k + 1).map(|i| &want[i]);
    if make().nth_back(k).as_ref() != exp { return Err(format!("{what}: nth_back({k}) is not {:?}", exp)); }
    // The rest after the scheduled steps, consumed whole.
    let (mut it, mut i, mut j) = (make(), 0, want.len());
    for s in sched {
        let (got, exp) = step(&mut it, *s, want, &mut i, &mut j);
        if got.as_ref() != exp { return Err(format!("{what}: got {got:?}, expected {exp:?} within the steps {sched:?}")); }
    }
    let rest = &want[i..j];
    let end = |how: &str, got: &[X]| if got == rest { Ok(()) } else { Err(format!("{what}: after the steps {sched:?} {how} gives {}, expected {}", short(got), short(rest))) };
    match sched.iter().fold(k, |a, s| (a.wrapping_mul(3)).wrapping_add(usize::from(*s))) % 12 {
        0 => end("collect()", &it.take(cap).collect::<Vec<X>>())?,
        1 => { let mut v: Vec<X> = it.rev().take(cap).collect(); v.reverse(); end("rev()", &v)? }
        2 => { let n = it.count(); if n != rest.len() { return Err(format!("{what}: after the steps {sched:?} count() is {n}, expected {}", rest.len())); } }
        3 => { let l = it.last(); if l.as_ref() != rest.last() { return Err(format!("{what}: after the steps {sched:?} last() is {l:?}, expected {:?}", rest.last())); } }
        4 => end("fold()", &it.fold(vec![], |mut v, x| { v.push(x); v }))?,
        5 => { let mut v = it.rfold(vec![], |mut v, x| { v.push(x); v }); v.reverse(); end("rfold()", &v)? }
        6 => { let mut v = vec![]; it.for_each(|x| v.push(x)); end("for_each()", &v)? }
        // Searches stop at the item they look for and leave the rest.
        m => {
            let seek = rest.get((k * 7 + sched.len()) % (rest.len() + 1));
            let at = seek.and_then(|s| rest.iter().position(|x| x == s));
            let bad = |how: &str, got: String| err(format!("{what}: after the steps {sched:?} {how} for {seek:?} gives {got}, with {} left", short(rest)));
            let mut cut = (0, rest.len());
            let is = |x: &X| seek == Some(x);
            match m {
                7 => { let g = it.find(is); if g.as_ref() != seek { return bad("find()", format!("{g:?}")); } cut.0 = at.map_or(rest.len(), |a| a + 1); }
                8 => { let g = it.rfind(is); if g.as_ref() != seek { return bad("rfind()", format!("{g:?}")); } cut.1 = at.unwrap_or(0); }
                9 => { let g = it.position(|x| is(&x)); if g != at { return bad("position()", format!("{g:?}")); } cut.0 = at.map_or(rest.len(), |a| a + 1); }
                10 => { let g = it.any(|x| is(&x)); if g != seek.is_some() { return bad("any()", format!("{g}")); } cut.0 = at.map_or(rest.len(), |a| a + 1); }
                _ => { let g = it.all(|x| !is(&x)); if g == seek.is_some() { return bad("all()", format!("{g}")); } cut.0 = at.map_or(rest.len(), |a| a + 1); }
            }
            let left: Vec<X> = it.take(cap).collect();
            if left != rest[cut.0.min(cut.1)..cut.1] { return err(format!("{what}: after the steps {sched:?} and a search for {seek:?}, {} is left of {}", short(&left), short(rest))); }
        }
    }
    Ok(())
}
fn err<T>(m: String) -> Result<T, String> { Err(m) }

/// Reads of what is left after some steps that depend on the items' order.
pub fn ordered<X, I>(what: &str, mut it: I, want: &[X], sched: &[u8]) -> Result<(), String>
where X: Ord + Debug, I: Iterator<Item = X> + DoubleEndedIterator {
    let (mut i, mut j) = (0, want.len());
    for s in sched { step(&mut it, *s, want, &mut i, &mut j); }
    let rest = &want[i..j];
    let w = || format!("{what}: after the steps {sched:?}, with {} left,", short(rest));
    match sched.iter().fold(want.len(), |a, s| (a.wrapping_mul(5)).wrapping_add(usize::from(*s))) % 4 {
        0 => { let g = it.max(); if g.as_ref() != rest.last() { return err(format!("{} max() is {g:?}", w())); } }
        1 => { let g = it.min(); if g.as_ref() != rest.first() { return err(format!("{} min() is {g:?}", w())); } }
        2 => if !it.is_sorted() { return err(format!("{} is_sorted() is false", w())); },
        _ => { let g = it.reduce(|a, b| a.max(b)); if g.as_ref() != rest.last() { return err(format!("{} reduce(max) is {g:?}", w())); } }
    }
    Ok(())
}

pub fn short<X: Debug>(v: &[X]) -> String {
    if v.len() <= 12 { format!("{v:?}") } else { format!("{:?}…({} items)", &v[..12], v.len()) }
}

/// The items from an iterator that cannot tell how many are left, or only that they are at most
/// `usize::MAX` (as after a filter).
pub struct Lazily<'v, X> { v: &'v [X], i: usize }
impl<X: Clone> Iterator for Lazily<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> { self.i += 1; self.v.get(self.i - 1).cloned() }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, if self.v.len() % 2 == 1 { Some(usize::MAX) } else { None }) }
}
pub fn lazily<X: Clone>(v: &[X]) -> Lazily<'_, X> { Lazily { v, i: 0 } }
