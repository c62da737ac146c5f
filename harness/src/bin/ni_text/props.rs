//! C24: text.
use nicheck::run::{Obs, Prop, Sink};
use normalize_interval::raw_interval::RawInterval;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;

fn err<T>(m: String) -> Result<T, String> { Err(m) }

// ---------------------------------------------------------------- C24
/// Number types used as points.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum NTy { I8, U8, I32, U64, I64, U128, I128, Dec }
pub const NTYS: [NTy; 8] = [NTy::I8, NTy::U8, NTy::I32, NTy::U64, NTy::I64, NTy::U128, NTy::I128, NTy::Dec];
pub trait Num: Ord + Clone + Debug + Display + FromStr + 'static { fn from_bits(x: i128) -> Self; }
macro_rules! num { ($($t:ident),*) => { $(impl Num for $t { fn from_bits(x: i128) -> Self { x as $t } })* }; }
num!(i8, u8, i32, u64, i64, u128, i128);
/// A user's number type: hundredths, printed with a decimal point when there is a fraction.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dec(i64);
impl Display for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (sign, m) = (if self.0 < 0 { "-" } else { "" }, self.0.unsigned_abs());
        if m % 100 == 0 { write!(f, "{sign}{}", m / 100) } else { write!(f, "{sign}{}.{:02}", m / 100, m % 100) }
    }
}
impl FromStr for Dec {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s.strip_prefix('+').unwrap_or(s)) };
        let (whole, frac) = t.split_once('.').unwrap_or((t, "00"));
        if whole.is_empty() || frac.len() != 2 || !t.chars().all(|c| c.is_ascii_digit() || c == '.') { return Err(format!("{s:?} is not a decimal")); }
        let digits: i128 = format!("{whole}{frac}").parse().map_err(|_| format!("{s:?} is not a decimal"))?;
        i64::try_from(if neg { -digits } else { digits }).map(Dec).map_err(|_| format!("{s:?} is out of range"))
    }
}
impl Num for Dec { fn from_bits(x: i128) -> Self { Dec(x as i64) } }
macro_rules! with_nty {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $ty { NTy::I8 => $f::<i8>($($a),*), NTy::U8 => $f::<u8>($($a),*), NTy::I32 => $f::<i32>($($a),*), NTy::U64 => $f::<u64>($($a),*),
            NTy::I64 => $f::<i64>($($a),*), NTy::U128 => $f::<u128>($($a),*), NTy::I128 => $f::<i128>($($a),*), NTy::Dec => $f::<Dec>($($a),*) }
    };
}

/// Numbers beyond 64 bits, which JSON values do not hold, are saved as text.
mod big {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(x: &i128, s: S) -> Result<S::Ok, S::Error> {
        match i64::try_from(*x) { Ok(x) => x.serialize(s), Err(_) => x.to_string().serialize(s) }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<i128, D::Error> {
        match serde_json::Value::deserialize(d)? {
            serde_json::Value::String(t) => t.parse().map_err(serde::de::Error::custom),
            v => v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)).ok_or_else(|| serde::de::Error::custom("a whole number")),
        }
    }
}

/// How one end is written: the bracket is square, and the number decorated.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum End { Num { square: bool, plus: bool, zeros: u8, #[serde(with = "big")] value: i128 }, Inf }

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Text {
    /// An interval value (by variant) printed and parsed back.
    Print { shape: u8, #[serde(with = "big")] a: i128, #[serde(with = "big")] b: i128 },
    /// Interval notation written out.
    Notation(End, End),
    /// A point written out.
    PointText { plus: bool, zeros: u8, #[serde(with = "big")] value: i128 },
    /// Any text.
    Raw(String),
}
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TextCase { pub ty: NTy, pub text: Text }

fn variant<T: Num>(shape: u8, a: i128, b: i128) -> RawInterval<T> {
    use RawInterval as R;
    let (x, y) = (T::from_bits(a), T::from_bits(b));
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    match shape % 11 {
        0 => R::Empty,
        1 => R::Point(x),
        2..=5 if x == y => R::Point(x),
        2 => R::Open(x, y), 3 => R::LeftOpen(x, y), 4 => R::RightOpen(x, y), 5 => R::Closed(x, y),
        6 => R::UpTo(x), 7 => R::UpFrom(x), 8 => R::To(x), 9 => R::From(x),
        _ => R::Full,
    }
}
fn number<T: Num>(plus: bool, zeros: u8, value: i128) -> String {
    let t = T::from_bits(value).to_string();
    let (sign, digits) = match t.strip_prefix('-') { Some(d) => ("-", d), None => (if plus { "+" } else { "" }, &t[..]) };
    format!("{sign}{}{digits}", "0".repeat(zeros as usize))
}
fn write_text<T: Num>(l: &End, u: &End) -> String {
    let a = match *l { End::Inf => "(-∞".to_string(), End::Num { square, plus, zeros, value } => format!("{}{}", if square { '[' } else { '(' }, number::<T>(plus, zeros, value)) };
    let b = match *u { End::Inf => "∞)".to_string(), End::Num { square, plus, zeros, value } => format!("{}{}", number::<T>(plus, zeros, value), if square { ']' } else { ')' }) };
    format!("{a},{b}")
}
/// What interval notation denotes.
fn denotes<T: Num>(l: &End, u: &End) -> RawInterval<T> {
    use RawInterval as R;
    match (*l, *u) {
        (End::Inf, End::Inf) => R::Full,
        (End::Inf, End::Num { square, value, .. }) => { let x = T::from_bits(value); if square { R::To(x) } else { R::UpTo(x) } }
        (End::Num { square, value, .. }, End::Inf) => { let x = T::from_bits(value); if square { R::From(x) } else { R::UpFrom(x) } }
        (End::Num { square: s, value: a, .. }, End::Num { square: t, value: b, .. }) => {
            let (x, y) = (T::from_bits(a), T::from_bits(b));
            if x > y || (x == y && !s && !t) { R::Empty }
            else if x == y { R::Point(x) }
            else { match (s, t) { (true, true) => R::Closed(x, y), (true, false) => R::RightOpen(x, y), (false, true) => R::LeftOpen(x, y), (false, false) => R::Open(x, y) } }
        }
    }
}
/// Why the text must be rejected, if it plainly must. White space is the one thing that a lenient
/// reader might skip: a text with it must be rejected if the same text without it must be.
fn must_reject<T: Num>(s: &str) -> Option<&'static str> {
    if T::from_str(s).is_ok() { return None; }
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    if s == "Ø" || T::from_str(&s).is_ok() { return None; }
    let Some((x, y)) = s.split_once(',') else { return Some("no interval structure: no comma, not the empty mark, not a number") };
    if !x.starts_with('(') && !x.starts_with('[') { return Some("no opening bracket") }
    if !y.ends_with(')') && !y.ends_with(']') { return Some("no closing bracket") }
    if x != "(-∞" && T::from_str(&x[1..]).is_err() { return Some("lower bound is not a number") }
    if y != "∞)" && y != "+∞)" && T::from_str(&y[..y.len() - 1]).is_err() { return Some("upper bound is not a number") }
    None
}
fn val() -> BoxedStrategy<i128> {
    prop_oneof![6 => -20i128..40, 1 => any::<i128>(), 1 => any::<i64>().prop_map(i128::from), 1 => prop_oneof![Just(0i128), Just(i128::MAX), Just(i128::MIN),
        Just(127), Just(-128), Just(255), Just(i64::MIN as i128), Just(i64::MAX as i128), Just(-1), Just(i32::MIN as i128), Just(i32::MAX as i128)]].boxed()
}
/// Leading zeros: at times more than any number type has digits.
fn zeros() -> BoxedStrategy<u8> { prop_oneof![20 => Just(0u8), 4 => 1u8..5, 1 => 5u8..=130].boxed() }
fn end() -> BoxedStrategy<End> {
    prop_oneof![6 => (any::<bool>(), prop::bool::weighted(0.15), zeros(), val())
        .prop_map(|(square, plus, zeros, value)| End::Num { square, plus, zeros, value }), 1 => Just(End::Inf)].boxed()
}
/// String and character literals of the library's sources: hints for the generator, so that a text
/// the code treats specially is generated often. (The oracle does not depend on them.)
fn hints() -> Vec<&'static str> {
    let mut v = vec![];
    let mut files: Vec<_> = std::fs::read_dir("/repo/src").into_iter().flatten().flatten().map(|f| f.path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    for f in files {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines().map(str::trim).filter(|l| !l.starts_with("//") && !l.starts_with('#')) {
            for q in ['"', '\''] {
                for t in line.split(q).skip(1).step_by(2) {
                    if (q == '"' && (1..=20).contains(&t.len()) || t.chars().count() == 1) && !v.contains(&t.to_string()) && v.len() < 300 { v.push(t.to_string()); }
                }
            }
        }
    }
    v.into_iter().map(|t| &*t.leak()).collect()
}
fn junk() -> BoxedStrategy<String> {
    let h = hints();
    let known = prop::sample::select(if h.is_empty() { vec!["∞"] } else { h });
    let tok = prop_oneof![10 => token(), 1 => known];
    junk_of(tok.boxed())
}
fn token() -> BoxedStrategy<&'static str> {
    prop::sample::select(vec!["(", ")", "[", "]", ",", "-", "+", "∞", "Ø", "-∞", "(-∞", "∞)", "0", "1", "7", "12", "-3", "99999999999999999999999999999999999999999", "x",
        "é", "−", "e", ".", "..", "256", "-129", "{", "}", ";", " ", "+∞", "∞)", "(1", "2]", "[3", "4)", "\u{301}",
        "empty", "{}", "∅", "ø", "0̸", "inf", "-inf", "Infinity", "NaN", "null", "None", "oo", "*", "..=", "<", ">", "=", "|", ":", "_", "1_000", "0x1", "0b1", "1e3", "1u8", "١", "２", "²",
        "()", "[]", "(,)", "[,]", "(1,2)", "[3,4]", "-0", "--1", "+-1", "\0", "\u{feff}", "\u{200b}", "⟨", "］", "，", "\"", "U", "∪"]).boxed()
}
fn num() -> BoxedStrategy<i32> { prop_oneof![4 => 0i32..13, 1 => any::<i8>().prop_map(i32::from)].boxed() }
fn junk_of(tok: BoxedStrategy<&'static str>) -> BoxedStrategy<String> {
    let tok2 = prop_oneof![1 => Just(""), 6 => tok.clone()].boxed();
    prop_oneof![
        16 => proptest::collection::vec(tok.clone(), 0..7).prop_map(|v| v.concat()),
        // Notation with one edit.
        20 => (end(), end(), any::<u16>(), tok, 0u8..5).prop_map(|(l, u, at, t, how)| {
            let s = write_text::<i32>(&l, &u);
            let cs: Vec<char> = s.chars().collect();
            let i = at as usize % cs.len();
            if how >= 3 {
                // A character, or everything from it to the end, twice.
                return if how == 3 { cs[..=i].iter().chain(&cs[i..]).collect() } else { cs.iter().chain(&cs[i..]).collect() };
            }
            let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i + usize::from(how != 0)..].iter().collect());
            if how == 2 { a + &b } else { a + t + &b }
        }),
        // Numbers between tokens.
        4 => (tok2.clone(), num(), tok2.clone()).prop_map(|(a, x, b)| format!("{a}{x}{b}")),
        8 => (tok2.clone(), num(), tok2.clone(), num(), tok2.clone()).prop_map(|(a, x, b, y, c)| format!("{a}{x}{b}{y}{c}")),
        // Long ones.
        1 => (tok2.clone(), num(), 1usize..12, tok2).prop_map(|(a, x, n, b)| format!("{}{x}{}", a.repeat(n * n), b.repeat(n * n))),
        4 => any::<String>(),
        4 => "[\\(\\[][a-z0-9∞+-]{0,4},[a-z0-9∞+-]{0,4}[\\)\\]]",
    ].boxed()
}
pub struct C24;
impl Prop for C24 {
    type Case = TextCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "over seven integer types and a decimal one: an un-normalized interval printed and parsed back; interval notation with any brackets, signs, leading zeros, out-of-order and equal bounds, parsed against what it denotes; token soup, one-edit damage of notation and arbitrary Unicode, which must not panic and must be rejected when there is no comma, no bracket or a bound that is neither a number nor the infinite mark; non-trivial: everything but arbitrary text without verdict";
    const N: (u64, u64) = (10_000_000, 315_000_000);
    fn strategy(_t: bool) -> BoxedStrategy<TextCase> {
        let text = prop_oneof![
            3 => (0u8..11, val(), val()).prop_map(|(shape, a, b)| Text::Print { shape, a, b }),
            4 => (end(), end()).prop_map(|(l, u)| Text::Notation(l, u)),
            1 => (any::<bool>(), zeros(), val()).prop_map(|(plus, zeros, value)| Text::PointText { plus, zeros, value }),
            5 => junk().prop_map(Text::Raw),
        ];
        (prop::sample::select(NTYS.to_vec()), text).prop_map(|(ty, text)| TextCase { ty, text }).boxed()
    }
    fn check(c: &TextCase, o: &mut Obs) -> Result<(), String> {
        fn go<T: Num>(c: &TextCase, o: &mut Obs) -> Result<(), String> where T::Err: Debug {
            let parse = |s: &str| RawInterval::<T>::from_str(s);
            match &c.text {
                Text::Print { shape, a, b } => {
                    o.nt(true);
                    o.label("printed");
                    let r = variant::<T>(*shape, *a, *b);
                    let s = r.to_string();
                    match parse(&s) {
                        Ok(g) if g == r => {}
                        Ok(g) => return err(format!("{r:?} prints as {s:?}, which parses as {g:?}")),
                        Err(e) => return err(format!("{r:?} prints as {s:?}, which does not parse: {e:?}")),
                    }
                    if format!("{r}") != s { return err(format!("{r:?} prints differently the second time")); }
                    Ok(())
                }
                Text::Notation(l, u) => {
                    o.nt(true);
                    o.label("notation");
                    let (s, w) = (write_text::<T>(l, u), denotes::<T>(l, u));
                    o.label_if(w == RawInterval::Empty, "notation of the empty interval");
                    match parse(&s) {
                        Ok(g) if g == w => Ok(()),
                        Ok(g) => err(format!("{s:?} parses as {g:?}, but denotes {w:?}")),
                        Err(e) => err(format!("{s:?} denotes {w:?}, but is rejected: {e:?}")),
                    }
                }
                Text::PointText { plus, zeros, value } => {
                    o.nt(true);
                    o.label("a point");
                    let (s, w) = (number::<T>(*plus, *zeros, *value), RawInterval::Point(T::from_bits(*value)));
                    match parse(&s) {
                        Ok(g) if g == w => Ok(()),
                        Ok(g) => err(format!("{s:?} parses as {g:?}, but denotes {w:?}")),
                        Err(e) => err(format!("{s:?} denotes {w:?}, but is rejected: {e:?}")),
                    }
                }
                Text::Raw(s) => {
                    let got = parse(s);
                    match must_reject::<T>(s) {
                        Some(why) => {
                            o.nt(true);
                            o.label("must be rejected");
                            if let Ok(g) = got { return err(format!("{s:?} ({why}) parses as {g:?}")); }
                        }
                        None => {
                            o.label("no verdict on the text");
                            // Whatever was accepted must itself round-trip, if its points do.
                            if let Ok(g) = got {
                                o.nt(true);
                                let t = g.to_string();
                                if parse(&t).ok().as_ref() != Some(&g) { return err(format!("{s:?} parses as {g:?}, which prints as {t:?} and does not parse back")); }
                            }
                        }
                    }
                    Ok(())
                }
            }
        }
        with_nty!(c.ty, go(c, o))
    }
    fn enumerate(t: bool, k: &mut Sink<Self>) {
        let vals: Vec<i128> = if t { (-3..12).collect() } else { vec![-2, -1, 0, 1, 2, 9, 10, 127, 128] };
        for ty in NTYS {
            for &a in &vals { for &b in &vals {
                for shape in 0..11 { if !k.turn(|| TextCase { ty, text: Text::Print { shape, a, b } }) { return; } }
                for (s, q) in [(true, true), (true, false), (false, true), (false, false)] {
                    let e = |square, value| End::Num { square, plus: false, zeros: 0, value };
                    for (l, u) in [(e(s, a), e(q, b)), (End::Inf, e(q, b)), (e(s, a), End::Inf), (End::Inf, End::Inf)] {
                        if !k.turn(|| TextCase { ty, text: Text::Notation(l, u) }) { return; }
                    }
                }
            } }
        }
        // Every short text over the notation's own alphabet.
        let al = ['(', ')', '[', ']', ',', '-', '1', '2', '∞', 'Ø', 'x'];
        for len in 0..=if t { 6u32 } else { 5 } {
            for code in 0..(al.len() as u64).pow(len) {
                if !k.turn(|| {
                    let mut x = code;
                    let s: String = (0..len).map(|_| { let c = al[(x % 11) as usize]; x /= 11; c }).collect();
                    TextCase { ty: if code % 2 == 0 { NTy::I32 } else { NTy::U8 }, text: Text::Raw(s) }
                }) { return; }
            }
        }
    }
}
