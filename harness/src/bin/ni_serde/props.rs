//! C25: serialization.
use nicheck::dense::*;
use nicheck::fin::*;
use nicheck::run::{Obs, Prop, Sink};
use nicheck::sel::*;
use nicheck::{with_dty, with_ty};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;

fn err<T>(m: String) -> Result<T, String> { Err(m) }

// ---------------------------------------------------------------- C25
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum SerCase {
    /// A bound, marker or un-normalized interval and tree over a dense line.
    Dense { ty: DTy, n: u8, iv: DIv, other: DIv, ops: Vec<DOp> },
    /// An interval, with the un-normalized interval it comes from.
    Interval { cfg: Cfg, shape: u8, a: Coord, b: Coord },
    /// A selection after a history, and edits to make after reading it back.
    Selection { hist: Hist, after: Vec<SOp> },
}
fn back<X: Serialize + DeserializeOwned + PartialEq + Debug + Hash>(what: &str, x: &X) -> Result<Vec<X>, String> {
    let mut v = vec![];
    let e = |f: &str, e: String| format!("{what} {x:?}: {f} fails: {e}");
    let j = serde_json::to_string(x).map_err(|m| e("writing JSON", m.to_string()))?;
    v.push(("JSON", serde_json::from_str(&j).map_err(|m| e(&format!("reading its JSON {j}"), m.to_string()))?));
    let p = serde_json::to_string_pretty(x).map_err(|m| e("writing JSON", m.to_string()))?;
    v.push(("JSON from a reader", serde_json::from_reader(p.as_bytes()).map_err(|m| e(&format!("reading its JSON {p}"), m.to_string()))?));
    let b = bincode::serialize(x).map_err(|m| e("writing bincode", m.to_string()))?;
    v.push(("bincode", bincode::deserialize(&b).map_err(|m| e(&format!("reading its bincode {b:?}"), m.to_string()))?));
    let mut c = vec![];
    ciborium::into_writer(x, &mut c).map_err(|m| e("writing CBOR", m.to_string()))?;
    v.push(("CBOR", ciborium::from_reader(&c[..]).map_err(|m| e(&format!("reading its CBOR {c:?}"), m.to_string()))?));
    if let Ok(t) = serde_json::to_value(x) { v.push(("a JSON value", serde_json::from_value(t).map_err(|m| e(&format!("reading its JSON value {j}"), m.to_string()))?)); }
    let q: Vec<Option<X>> = bincode::deserialize(&bincode::serialize(&vec![Some(x), None, Some(x)]).map_err(|m| e("writing bincode", m.to_string()))?).map_err(|m| e("reading a bincode sequence", m.to_string()))?;
    if q.len() != 3 || q[1].is_some() { return err(format!("[{x:?}, none, {x:?}] comes back from bincode as {q:?}")); }
    v.extend(q.into_iter().flatten().map(|y| ("a sequence", y)));
    for (f, y) in &v {
        if let Some(e) = unlike(x, y) { return err(format!("{what} {x:?} comes back from {f} as {y:?}, {e}")); }
        if serde_json::to_string(y).ok().as_ref() != Some(&j) { return err(format!("{what} {x:?} comes back from {f} writing other JSON than {j}")); }
    }
    Ok(v.into_iter().map(|x| x.1).collect())
}
pub struct C25;
impl Prop for C25 {
    type Case = SerCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "bounds, un-normalized intervals, markers and trees over dense lines, intervals and selections over finite types after histories; written and read back through JSON, bincode and CBOR, compared by ==, hash, membership and further edits; every un-normalized shape read back as an interval; non-trivial: a tree or selection with two or more pieces, or an interval with a bound";
    const N: (u64, u64) = (800_000, 27_000_000);
    fn strategy(t: bool) -> BoxedStrategy<SerCase> {
        let k = if t { 12 } else { 6 };
        prop_oneof![
            2 => (dty(), 2u8..8).prop_flat_map(move |(ty, n)| (Just(ty), Just(n), div(n), div(n), proptest::collection::vec(dop(n), 0..k)))
                .prop_map(|(ty, n, iv, other, ops)| SerCase::Dense { ty, n, iv, other, ops }),
            2 => (cfg(), 0u8..15, coord(), coord()).prop_map(|(cfg, shape, a, b)| SerCase::Interval { cfg, shape, a, b }),
            2 => (hist(k), proptest::collection::vec(edit(), 0..3)).prop_map(|(hist, after)| SerCase::Selection { hist, after }),
        ].boxed()
    }
    fn check(c: &SerCase, o: &mut Obs) -> Result<(), String> {
        fn dense<T: Dense>(n: u8, iv: &DIv, other: &DIv, ops: &[DOp], o: &mut Obs) -> Result<(), String> {
            let l: Line<T> = Line::new(n as usize);
            let (r, m) = iv.build(&l);
            for b in [Bound::Include(l.pos(0)), Bound::Exclude(l.pos(n as usize - 1)), Bound::Infinite].into_iter().chain(r.lower_bound()).chain(r.upper_bound()) {
                back("bound", &b)?;
                back("marker", &Tine::Lower(b.clone()))?;
                back("marker", &Tine::Upper(b.clone()))?;
                if !matches!(b, Bound::Infinite) { back("marker", &Tine::Point(b))?; }
            }
            for y in back("interval", &r)? { l.raw_is("an interval read back", &y, m)?; }
            for t in Tine::from_raw_interval(r.clone()) { back("marker", &t)?; }
            let mut t: TineTree<T> = TineTree::from_raw_interval(r);
            let mut mt = m;
            for op in ops { mt = op.apply(&l, &mut t, mt); }
            let k = t.interval_iter().take(100).count();
            o.nt(k >= 2 || m != 0 && m != l.full);
            o.label_if(k >= 2, "a tree of two or more pieces");
            let (x, _) = other.build(&l);
            let (mut tu, mut tm) = (t.clone(), t.clone());
            tu.union_in_place(&x);
            tm.minus_in_place(&x);
            for y in back("tree", &t)? {
                l.members("a tree read back", mt, |p| y.contains(p))?;
                let (mut yu, mut ym) = (y.clone(), y);
                yu.union_in_place(&x);
                ym.minus_in_place(&x);
                if yu != tu || ym != tm { return err(format!("the tree {t:?}, read back, gives {yu:?} and {ym:?} by union and difference with {x:?}, instead of {tu:?} and {tm:?}")); }
            }
            Ok(())
        }
        fn interval<T: Fin>(cfg: &Cfg, shape: u8, a: Coord, b: Coord, o: &mut Obs) -> Result<(), String> {
            let (r, m) = raw::<T>(shape, cfg.ix::<T>(a), cfg.ix::<T>(b));
            o.nt((1..10).contains(&shape));
            o.label("an interval");
            back("un-normalized interval", &r)?;
            let i = Interval::from(r.clone());
            for y in back("interval", &i)? { iv_is("an interval read back", &y, m)?; }
            // Read as an interval, whatever its form.
            let e = |f: &str, e: String| format!("{r:?} cannot be read as an interval from {f}: {e}");
            let j = serde_json::to_string(&r).map_err(|x| e("JSON", x.to_string()))?;
            let x: Interval<T> = serde_json::from_str(&j).map_err(|x| e("JSON", x.to_string()))?;
            let bin = bincode::serialize(&r).map_err(|x| e("bincode", x.to_string()))?;
            let z: Interval<T> = bincode::deserialize(&bin).map_err(|x| e("bincode", x.to_string()))?;
            let mut c = vec![];
            ciborium::into_writer(&r, &mut c).map_err(|x| e("CBOR", x.to_string()))?;
            let w: Interval<T> = ciborium::from_reader(&c[..]).map_err(|x| e("CBOR", x.to_string()))?;
            // Among others in a sequence, optional, and over an existing value.
            let b = bincode::serialize(&(vec![r.clone(), RawInterval::Empty, r.clone()], Some(r.clone()))).map_err(|x| e("bincode", x.to_string()))?;
            let (v, q): (Vec<Interval<T>>, Option<Interval<T>>) = bincode::deserialize(&b).map_err(|x| e("bincode", x.to_string()))?;
            if v.len() != 3 || !v[1].is_empty() { return err(format!("[{r:?}, Empty, {r:?}] read from bincode as intervals gives {v:?}")); }
            let mut place: Interval<T> = Interval::full();
            let mut d = serde_json::Deserializer::from_str(&j);
            Interval::deserialize_in_place(&mut d, &mut place).map_err(|x| e("JSON", x.to_string()))?;
            let read = [("JSON", x), ("bincode", z), ("CBOR", w), ("a sequence", v[0].clone()), ("the end of a sequence", v[2].clone()), ("JSON over another interval", place)];
            for (f, y) in read.into_iter().chain(q.map(|q| ("an option", q))) {
                if y != i { return err(format!("{r:?} read from {f} as an interval gives {y:?}, but is the interval {i:?}")); }
                iv_is("an interval read from an un-normalized one", &y, m)?;
                if hash(&y) != hash(&i) { return err(format!("{r:?} read from {f} hashes differently")); }
                let (p, q): (Selection<T>, Selection<T>) = (y.into(), i.clone().into());
                if p != q { return err(format!("{r:?} read from {f} as an interval selects {p:?} instead of {q:?}")); }
            }
            Ok(())
        }
        fn selection<T: Fin>(h: &Hist, after: &[SOp], o: &mut Obs) -> Result<(), String> {
            let r = h.run::<T>();
            o.nt(r.set[0].0.len() >= 2);
            o.label_if(r.set[0].0.len() >= 2, "a selection of two or more intervals");
            for i in 0..3 {
                let (s, m) = (&r.sel[i], &r.set[i]);
                for y in back("selection", s)? {
                    points_near("a selection read back", &y, m, &[])?;
                    listing_is("a selection read back", &y, m, &[0, 1])?;
                    if i == 0 {
                        let mut x = Regs::<T>::new();
                        x.sel[0] = y;
                        x.set[0] = m.clone();
                        let mut z = s.clone();
                        for op in after {
                            x.apply(&h.cfg, op);
                            match op {
                                SOp::UniteIn(_, v) => z.union_in_place(v.build(&h.cfg).0),
                                SOp::MeetIn(_, v) => z.intersect_in_place(v.build(&h.cfg).0),
                                SOp::TakeIn(_, v) => z.minus_in_place(v.build(&h.cfg).0),
                                _ => {}
                            }
                        }
                        if x.sel[0] != z { return err(format!("{} read back and edited by {after:?} gives {} instead of {}", show(s), show(&x.sel[0]), show(&z))); }
                        points_near("a selection read back and edited", &x.sel[0], &x.set[0], &[])?;
                    }
                }
            }
            Ok(())
        }
        match c {
            SerCase::Dense { ty, n, iv, other, ops } => with_dty!(*ty, dense(*n, iv, other, ops, o)),
            SerCase::Interval { cfg, shape, a, b } => with_ty!(cfg.ty, interval(cfg, *shape, *a, *b, o)),
            SerCase::Selection { hist, after } => with_ty!(hist.cfg.ty, selection(hist, after, o)),
        }
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        for ty in DTYS { for iv in all_divs(3) {
            if !k.turn(|| SerCase::Dense { ty, n: 3, iv, other: iv, ops: vec![] }) { return; }
        } }
        for (cfg, n) in small_cfgs() {
            for shape in 0..15 { for a in 0..n { for b in 0..n { if !k.turn(|| SerCase::Interval { cfg, shape, a, b }) { return; } } } }
        }
        for hist in huge_fixed(if t { 2050 } else { 520 }) {
            if !k.turn(|| SerCase::Selection { hist, after: vec![SOp::TakeIn(0, Iv::Point(31)), SOp::UniteIn(0, Iv::Closed(20, 33))] }) { return; }
        }
        let n = if t { 7 } else { 5 };
        for (ty, classes) in [(Ty::S7, 0), (Ty::U8, 1), (Ty::I32, 2)] {
            let cfg = Cfg { ty, spread: 7, classes };
            for mask in 0..1u32 << n { for how in 0..3u8 {
                if !k.turn(|| SerCase::Selection { hist: Hist { cfg, ops: subset_ops(0, n, mask, how) }, after: vec![SOp::TakeIn(0, Iv::Point(1)), SOp::UniteIn(0, Iv::Closed(2, 3))] }) { return; }
            } }
        }
    }
}
