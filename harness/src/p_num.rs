//! C09-C13: integers and imaginary numbers against mathematics.
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_codec::{hash_of, v_err};
use crate::refcodec as rc;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::{Integer, SignedState};
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;

/// How an integer gets into memory: built, or decoded from (possibly padded) bytes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Src {
    Built,
    Decoded,
    Padded(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct SrcInt {
    pub i: MInt,
    pub src: Src,
}
impl SrcInt {
    fn build(&self) -> Result<Integer, Fail> {
        let b = self.i.build();
        match self.src {
            Src::Built => Ok(b),
            Src::Decoded => {
                let (s, bytes) = b.ser();
                Integer::deser(s, &mut Cursor::new(&bytes)).map_err(|e| v_err(format!("{} is not read back: {e}", self.i.n)))
            }
            Src::Padded(k) => {
                let bytes = padded(self.i.n, k);
                let st = if self.i.n.neg { SignedState::SignedNegative } else { SignedState::Unsigned };
                Integer::deser(st, &mut Cursor::new(&bytes)).map_err(|e| v_err(format!("{} in a padded form is not read: {e}", self.i.n)))
            }
        }
    }
}
/// A valid but longer encoding of a number.
fn padded(n: Num, k: u8) -> Vec<u8> {
    let full: [u8; 16] = if n.neg { n.as_i128().unwrap_or_default().to_le_bytes() } else { n.mag.to_le_bytes() };
    let pad = if n.neg { 0xff } else { 0 };
    let mut used = 16;
    while used > 1 && full[used - 1] == pad {
        used -= 1;
    }
    used = (used + k as usize).min(16);
    let mut v = vec![239 + used as u8];
    v.extend(&full[..used]);
    v
}
fn src_int() -> BoxedStrategy<SrcInt> {
    (mint(), prop_oneof![3 => Just(Src::Built), 2 => Just(Src::Decoded), 1 => (0..16_u8).prop_map(Src::Padded)]).prop_map(|(i, src)| SrcInt { i, src }).boxed()
}
fn int_case(i: &SrcInt, case: &mut Case) {
    case.label(i.i.width());
    case.label(match i.src {
        Src::Built => "built",
        Src::Decoded => "decoded",
        Src::Padded(_) => "padded",
    });
    case.label_if(i.i.n.neg, "negative");
    if i.i.n.mag > 1 {
        case.nontrivial();
    }
}

// ---------------------------------------------------------------- C09
fn c09(s: &SrcInt, case: &mut Case) -> TestResult {
    int_case(s, case);
    let n = s.i.n;
    let int = s.build()?;
    let val = Value::Integer(int);
    macro_rules! one {
        ($t:ty, $w:expr) => {{
            let want = in_width(n, $w);
            let got = <$t>::try_from(int).ok();
            ensure!(got.is_some() == want, "{n} (from {}) as {} gives {got:?}", s.i.width(), $w);
            if let Some(g) = got {
                ensure!(g.to_string() == n.to_string(), "{n} (from {}) as {} gives {g}", s.i.width(), $w);
                let again = Integer::from(g);
                ensure!(int_num(&again).map_err(v_err)? == n, "{n} through {} becomes {again}", $w);
                let v = Value::from(g);
                ensure!(matches!(&v, Value::Integer(x) if int_num(x) == Ok(n)), "Value::from({g}) is {v:?}");
            }
            let gv = <$t>::try_from(val.clone()).ok();
            ensure!(gv.map(|g| g.to_string()) == want.then(|| n.to_string()), "value {n} as {} gives {gv:?}", $w);
        }};
    }
    one!(u8, "u8");
    one!(u16, "u16");
    one!(u32, "u32");
    one!(u64, "u64");
    one!(u128, "u128");
    one!(usize, "usize");
    one!(i8, "i8");
    one!(i16, "i16");
    one!(i32, "i32");
    one!(i64, "i64");
    one!(i128, "i128");
    one!(isize, "isize");
    ensure!(int.is_negative() == n.neg, "{n} says is_negative = {}", int.is_negative());
    ensure!(int.is_positive() != int.is_negative(), "{n} is both or neither positive and negative");
    Ok(())
}
/// Every value of the two narrow widths into every other width: exhaustive.
fn c09_narrow(chunk: &u8, case: &mut Case) -> TestResult {
    case.nontrivial();
    for lo in 0..=255_u8 {
        let b = [lo, *chunk];
        for (n, w) in [(Num::u(u16::from_le_bytes(b).into()), 1), (Num::i(i16::from_le_bytes(b).into()), 7)] {
            c09(&SrcInt { i: MInt { w, n }, src: Src::Built }, &mut Case::default())?;
        }
    }
    Ok(())
}
pub fn c09p() -> Property {
    Property {
        id: "C09",
        rule: "boundary-rich integers (around every power of two, every byte width, the one-byte form) built from every width or text or decoded (also padded), converted to all twelve widths; plus all u16 and i16; non-trivial: magnitude above one",
        level: "exploration",
        assumptions: &[],
        checks: vec![Pbt::boxed("conversions", 2_880_000, 54_000_000, |_| src_int(), c09), Pbt::boxed_shards("all_16_bit", 2000, 4000, 8, 100, |_| any::<u8>(), c09_narrow)],
    }
}

// ---------------------------------------------------------------- C10
fn c10(i: &(SrcInt, Vec<u8>), case: &mut Case) -> TestResult {
    let (s, tail) = i;
    int_case(s, case);
    let n = s.i.n;
    let int = s.build()?;
    let (st, bytes) = int.ser();
    let want = rc::enc_int(n);
    ensure!(bytes == want, "{n} (from {}, {:?}) is written {bytes:?}, not {want:?}", s.i.width(), s.src);
    if n.neg {
        ensure!(st == SignedState::SignedNegative, "{n} is written as {st:?}");
    } else {
        ensure!(st != SignedState::SignedNegative, "{n} is written as {st:?}");
        if matches!(s.src, Src::Built) && s.i.w < 6 {
            ensure!(st == SignedState::Unsigned, "unsigned {n} is written as {st:?}");
        }
        if matches!(s.src, Src::Built) && (6..12).contains(&s.i.w) {
            ensure!(st == SignedState::SignedPositive, "signed {n} is written as {st:?}");
        }
    }
    ensure!(SignedState::try_from(u8::from(st)).ok() == Some(st), "state {st:?} does not round trip");
    let mut b2 = bytes.clone();
    b2.extend(tail);
    let mut c = Cursor::new(&b2);
    let back = Integer::deser(st, &mut c).map_err(|e| v_err(format!("{n} is not read back: {e}")))?;
    ensure!(int_num(&back).map_err(v_err)? == n, "{n} is read back as {back}");
    ensure!(c.pos() == bytes.len(), "{n}: {} bytes written, {} consumed", bytes.len(), c.pos());
    ensure!(back.ser() == (st, bytes.clone()), "{n} is written differently after being read");
    for cut in 0..bytes.len() {
        let b = bytes[..cut].to_vec();
        ensure!(Integer::deser(st, &mut Cursor::new(&b)).is_err(), "{n}: the first {cut} of {} bytes are accepted", bytes.len());
    }
    Ok(())
}
/// Arbitrary bytes: the value is the little-endian one, or there is an error; never anything else.
fn c10_raw(i: &(u8, Vec<u8>), case: &mut Case) -> TestResult {
    let (st, b) = i;
    let state = match SignedState::try_from(*st) {
        Ok(s) => {
            ensure!(*st < 3, "state byte {st} accepted");
            s
        }
        Err(_) => {
            ensure!(*st > 2, "state byte {st} rejected");
            return Ok(());
        }
    };
    let mut c = Cursor::new(b);
    let got = Integer::deser(state, &mut c);
    let mut r = rc::Rd::new(b);
    let mut want = rc::dec_int(*st, &mut r).ok();
    if let Some(n) = want {
        if *st == 1 && n.as_i128().is_none() {
            want = None; // a signed positive beyond i128
        }
    }
    case.label(if want.is_some() { "valid" } else { "invalid" });
    if b.len() > 1 {
        case.nontrivial();
    }
    match (got, want) {
        (Ok(g), Some(n)) => {
            ensure!(int_num(&g).map_err(v_err)? == n, "{b:?} ({state:?}) read as {g}, should be {n}");
            ensure!(g.to_string() == n.to_string(), "{b:?} ({state:?}) shows {g}, should be {n}");
            let (s2, enc) = g.ser();
            ensure!(enc == rc::enc_int(n), "{n} read from {b:?} is written as {enc:?}");
            let _ = s2;
            let _ = f64::from(g);
            let _ = f32::from(g);
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(g), None) => violation(format!("ill-formed {b:?} ({state:?}) read as {g}")),
        (Err(e), Some(n)) => violation(format!("{n} = {b:?} ({state:?}) is rejected: {e}")),
    }
}
pub fn c10p() -> Property {
    Property {
        id: "C10",
        rule: "boundary-rich integers written and compared with an independent minimal little-endian encoder, read back with trailing bytes and from every prefix; raw byte strings of every length code; non-trivial: magnitude above one / more than one byte",
        level: "exploration",
        assumptions: &["padded encodings are accepted and mean the same number"],
        checks: vec![
            Pbt::boxed("wire_form", 2_880_000, 54_000_000, |_| (src_int(), vec(any::<u8>(), 0..4)), c10),
            Pbt::boxed(
                "raw_bytes",
                2_880_000, 54_000_000,
                |_| {
                    (
                        prop_oneof![9 => 0..3_u8, 1 => any::<u8>()],
                        prop_oneof![
                            3 => (0..=16_u8, vec(prop_oneof![2 => any::<u8>(), 1 => Just(0), 1 => Just(0xff), 1 => Just(0x80), 1 => Just(0x7f)], 0..18)).prop_map(|(n, mut v)| { v.insert(0, 239 + n); v }),
                            2 => (0..=16_usize, prop_oneof![Just(0_u8), Just(0xff), any::<u8>()], any::<u8>()).prop_map(|(n, f, last)| { let mut v = vec![239 + n as u8]; v.extend(vec![f; n]); if n > 0 { v[n] = last; } v }),
                            1 => vec(any::<u8>(), 0..20),
                        ],
                    )
                },
                c10_raw,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C11
fn c11(i: &(SrcInt, SrcInt), case: &mut Case) -> TestResult {
    let (s, o) = i;
    int_case(s, case);
    let (n, m) = (s.i.n, o.i.n);
    let (a, b) = (s.build()?, o.build()?);
    case.label(if n == m { "equal_pair" } else { "different_pair" });
    ensure!((a == b) == (n == m), "{n} == {m} is {}", a == b);
    ensure!((b == a) == (n == m), "{m} == {n} is {}", b == a);
    ensure!((Value::Integer(a) == Value::Integer(b)) == (n == m), "values {n} == {m} differ from the numbers");
    #[allow(clippy::eq_op)]
    {
        ensure!(a == a, "{n} != itself");
    }
    if n == m {
        ensure!(hash_of(&a) == hash_of(&b), "{n} hashes differently as {:?} and {:?}", s, o);
        ensure!(hash_of(&Value::Integer(a)) == hash_of(&Value::Integer(b)), "value {n} hashes differently");
    }
    // text
    let t = a.to_string();
    ensure!(t == n.to_string(), "{n} shows as {t:?}");
    let parsed: Integer = t.parse().map_err(|e| v_err(format!("own text {t:?} does not parse: {e}")))?;
    ensure!(int_num(&parsed).map_err(v_err)? == n && parsed == a, "{t:?} parses to {parsed}");
    // JSON number
    let fits = in_width(n, "u64") || in_width(n, "i64");
    match a.to_json() {
        Some(serde_json::Value::Number(j)) => {
            ensure!(fits, "{n} does not fit a JSON integer but gives {j}");
            ensure!(j.to_string() == n.to_string(), "{n} exports as {j}");
            let back = Integer::from_json(&j).ok_or_else(|| v_err(format!("exported {j} is not imported")))?;
            ensure!(int_num(&back).map_err(v_err)? == n, "{n} is imported as {back}");
        }
        Some(x) => return violation(format!("{n} exports as {x}")),
        None => ensure!(!fits, "{n} fits a JSON integer but is not exported"),
    }
    // serde
    let j = serde_json::to_string(&a).map_err(|e| v_err(format!("serde of {n}: {e}")))?;
    ensure!(j == n.to_string(), "{n} is {j} in serde");
    if fits {
        let back: Integer = serde_json::from_str(&j).map_err(|e| v_err(format!("serde reading {j}: {e}")))?;
        ensure!(back == a && int_num(&back).map_err(v_err)? == n, "{n} is {back} after serde");
        let v = serde_json::to_value(a).map_err(|e| v_err(format!("serde value of {n}: {e}")))?;
        let back: Integer = serde_json::from_value(v).map_err(|e| v_err(format!("serde value of {n} back: {e}")))?;
        ensure!(back == a, "{n} is {back} after a serde value");
    } else if let Ok(back) = serde_json::from_str::<Integer>(&j) {
        ensure!(int_num(&back).map_err(v_err)? == n, "{j} is read as {back}");
    }
    Ok(())
}
fn c11_text(s: &String, case: &mut Case) -> TestResult {
    let digits = s.strip_prefix('-').unwrap_or(s);
    let plain = !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit());
    let want = if plain { s.parse::<Num>().ok().filter(|n| !n.neg || n.mag <= 1 << 127) } else { None };
    let got = s.parse::<Integer>().ok();
    case.label(if want.is_some() { "number" } else { "not_a_number" });
    if s.len() > 1 {
        case.nontrivial();
    }
    if let Some(rest) = s.strip_prefix('+') {
        // an explicit plus may be refused or understood
        if let Some(g) = got {
            ensure!(rest.parse::<Num>().is_ok_and(|n| !n.neg && int_num(&g) == Ok(n)), "{s:?} parses to {g}");
        }
        return Ok(());
    }
    match (got, want) {
        (Some(g), Some(n)) => ensure!(int_num(&g).map_err(v_err)? == n, "{s:?} parses to {g}"),
        (None, None) => {}
        (Some(g), None) => return violation(format!("{s:?} parses to {g}")),
        (None, Some(n)) => return violation(format!("{s:?} = {n} does not parse")),
    }
    Ok(())
}
pub fn c11p() -> Property {
    Property {
        id: "C11",
        rule: "pairs of integers, half of them the same number from different widths/states/encodings: equality and hash against the numbers, text, JSON number and serde forms; arbitrary texts; non-trivial: magnitude above one / text longer than one",
        level: "exploration",
        assumptions: &["beyond 64 bits serde_json reads integers as floats, so only exact reading or an error is required there"],
        checks: vec![
            Pbt::boxed(
                "equal_hash_text",
                2_880_000, 54_000_000,
                |_| {
                    prop_oneof![
                        1 => (src_int(), src_int()).boxed(),
                        // numbers that differ in one byte or in sign only
                        1 => (src_int(), src_int(), 0..16_u32, any::<u8>()).prop_map(|(a, mut b, k, x)| {
                            let mag = a.i.n.mag ^ (u128::from(x) << (8 * k));
                            b.i = MInt { w: 12, n: Num { neg: a.i.n.neg && mag != 0 && mag <= 1 << 127, mag } };
                            (a, b)
                        }).boxed(),
                        1 => (src_int(), src_int()).prop_map(|(a, mut b)| {
                            let n = a.i.n;
                            let flipped = Num { neg: !n.neg && n.mag != 0 && n.mag <= 1 << 127, mag: n.mag };
                            b.i = MInt { w: 12, n: flipped };
                            (a, b)
                        }).boxed(),
                        3 => (src_int(), src_int(), any::<prop::sample::Index>()).prop_map(|(a, mut b, ix)| {
                            let n = a.i.n;
                            let mut fits: Vec<u8> = (0..12_u8).filter(|w| in_width(n, WIDTHS[*w as usize])).collect();
                            fits.push(12);
                            b.i = MInt { w: *ix.get(&fits), n };
                            (a, b)
                        }).boxed(),
                    ]
                },
                c11,
            ),
            Pbt::boxed(
                "text",
                1_920_000, 36_000_000,
                |_| {
                    prop_oneof![
                        2 => num().prop_map(|n| n.to_string()),
                        2 => "[-+]?[0-9]{1,41}",
                        1 => (num(), 0..6_usize).prop_map(|(n, z)| { let t = n.to_string(); t.strip_prefix('-').map_or(format!("{}{t}", "0".repeat(z)), |d| format!("-{}{d}", "0".repeat(z))) }),
                        1 => "[-+0-9 .eE_x]{0,6}",
                        1 => Just(String::new()),
                        1 => prop::sample::select(vec!["340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "-", "--1", "-0", "00", "٣", "1\u{0}"]).prop_map(String::from),
                        1 => any::<String>(),
                    ]
                },
                c11_text,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C12
fn math(op: u8, a: Num, b: Num) -> Option<Num> {
    let norm = |neg: bool, mag: u128| Num { neg: neg && mag != 0, mag };
    match op {
        0 | 1 => {
            let bneg = if op == 1 { !b.neg && b.mag != 0 } else { b.neg };
            if a.neg == bneg {
                a.mag.checked_add(b.mag).map(|m| norm(a.neg, m))
            } else if a.mag >= b.mag {
                Some(norm(a.neg, a.mag - b.mag))
            } else {
                Some(norm(bneg, b.mag - a.mag))
            }
        }
        2 => a.mag.checked_mul(b.mag).map(|m| norm(a.neg != b.neg, m)),
        _ => a.mag.checked_div(b.mag).map(|m| norm(a.neg != b.neg, m)),
    }
}
fn c12(i: &(SrcInt, SrcInt, u8), case: &mut Case) -> TestResult {
    let (x, y, op) = i;
    int_case(x, case);
    let (a, b) = (x.i.n, y.i.n);
    let (ia, ib) = (x.build()?, y.build()?);
    let want = math(*op, a, b);
    let name = ["+", "-", "*", "/"][*op as usize];
    case.label(["add", "sub", "mul", "div"][*op as usize]);
    let got = guarded(|| match op {
        0 => ia + ib,
        1 => ia - ib,
        2 => ia * ib,
        _ => ia / ib,
    });
    let fits = |n: Num| n.as_i128().is_some();
    let signed = |s: &SrcInt| s.i.n.neg || (matches!(s.src, Src::Built | Src::Decoded) && (6..12).contains(&s.i.w));
    let unsigned = |s: &SrcInt| matches!(s.src, Src::Built | Src::Decoded) && s.i.w < 6;
    let must = match want {
        None => false,
        Some(w) => {
            (fits(a) && fits(b) && fits(w) && (signed(x) || signed(y)))
                || (unsigned(x) && unsigned(y) && !w.neg)
                || (fits(a) && fits(b) && fits(w) && !a.neg && !b.neg && !w.neg)
        }
    };
    case.label(if want.is_none() { "unrepresentable" } else if must { "must_succeed" } else { "may_refuse" });
    match (got, want) {
        (Ok(g), Some(w)) => ensure!(int_num(&g).map_err(v_err)? == w, "{a} {name} {b} = {g}, should be {w}"),
        (Ok(g), None) => return violation(format!("{a} {name} {b} gives {g}, which cannot be right")),
        (Err((m, _)), Some(w)) => ensure!(!must, "{a} {name} {b} = {w} is refused: {m}"),
        (Err(_), None) => {}
    }
    Ok(())
}
fn c12_to_float(s: &SrcInt, case: &mut Case) -> TestResult {
    int_case(s, case);
    let n = s.i.n;
    let int = s.build()?;
    let want: f64 = n.to_string().parse().map_err(v_err)?;
    let got = f64::from(int);
    ensure!(got.to_bits() == want.to_bits(), "{n} as f64 is {got:?}, the nearest is {want:?}");
    let want: f32 = n.to_string().parse().map_err(v_err)?;
    let got = f32::from(int);
    ensure!(got.to_bits() == want.to_bits(), "{n} as f32 is {got:?}, the nearest is {want:?}");
    Ok(())
}
/// The exact value of an integral float, if it is in the range of `Integer`.
fn float_num(f: f64) -> Option<Num> {
    if !f.is_finite() || f.fract() != 0.0 {
        return None;
    }
    let bits = f.abs().to_bits();
    let exp = (bits >> 52) as i32 - 1075;
    let man = u128::from((bits & ((1 << 52) - 1)) | (1 << 52));
    let mag = if f == 0.0 {
        0
    } else if exp >= 0 {
        if exp > 75 {
            return None;
        }
        man << exp
    } else {
        man >> -exp
    };
    let neg = f < 0.0;
    (!neg || mag <= 1 << 127).then_some(Num { neg, mag })
}
fn from_float(f: f64, eps: f64, r: Result<Integer, String>, what: &str) -> TestResult {
    if f.is_finite() && f.fract() != 0.0 {
        if f.fract().abs() > eps {
            if let Ok(g) = r {
                return violation(format!("{what} {f:?} has decimals but converts to {g}"));
            }
        } else if let Ok(g) = r {
            // decimals below the tolerance may be refused or dropped
            ensure!(Some(int_num(&g).map_err(v_err)?) == float_num(f.trunc()), "{what} {f:?} converts to {g}");
        }
        return Ok(());
    }
    match (r, float_num(f)) {
        (Ok(g), Some(w)) => ensure!(int_num(&g).map_err(v_err)? == w, "{what} {f:?} converts to {g}"),
        (Ok(g), None) => return violation(format!("{what} {f:?} converts to {g}")),
        (Err(e), Some(w)) => return violation(format!("{what} {f:?} = {w} is refused: {e}")),
        (Err(_), None) => {}
    }
    Ok(())
}
fn c12_from_float(i: &(u64, u32), case: &mut Case) -> TestResult {
    let (d, s) = (f64::from_bits(i.0), f32::from_bits(i.1));
    case.label(if !d.is_finite() {
        "not_finite"
    } else if d.fract() != 0.0 {
        "decimals"
    } else if float_num(d).is_some() {
        "in_range"
    } else {
        "too_large"
    });
    if d.is_finite() && d.abs() > 1.0 {
        case.nontrivial();
    }
    from_float(d, f64::EPSILON, Integer::try_from(d).map_err(|e| e.to_string()), "f64")?;
    from_float(f64::from(s), f64::from(f32::EPSILON), Integer::try_from(s).map_err(|e| e.to_string()), "f32")
}
fn int_floats() -> BoxedStrategy<(u64, u32)> {
    fn both(f: f64) -> (u64, u32) {
        (f.to_bits(), (f as f32).to_bits())
    }
    let any_bits = (f64_bits(), f32_bits()).boxed();
    let near_pow = (-140_i32..140, -3_i32..=3, any::<bool>(), 0..3_u32)
        .prop_map(|(e, d, neg, ulp)| {
            let f = 2.0_f64.powi(e) + f64::from(d);
            let f = if neg { -f } else { f };
            let s = f as f32;
            (f.to_bits().wrapping_add(u64::from(ulp)).wrapping_sub(1), s.to_bits().wrapping_add(ulp).wrapping_sub(1))
        })
        .boxed();
    let whole = (any::<i64>(), 0..63_u32)
        .prop_map(|(v, s)| {
            let v = v >> s;
            ((v as f64).to_bits(), (v as f32).to_bits())
        })
        .boxed();
    let decimals = (-100_000_i32..100_000, prop::sample::select(vec![0.0_f64, 0.5, 0.25, 1e-9, 1e-15, 1e-17, 0.999_999_999, 1e-8, 5e-8]))
        .prop_map(|(v, f)| {
            let x = f64::from(v);
            both(x + x.signum() * f)
        })
        .boxed();
    let tiny = prop::sample::select(vec![1e-17_f64, -1e-17, -1e-300, 2e-16, -2e-16, 2.3e-16, -2.3e-16]).prop_map(both).boxed();
    let from_int = num().prop_map(|n| both(n.to_string().parse::<f64>().unwrap_or(0.0))).boxed();
    prop_oneof![2 => any_bits, 3 => near_pow, 3 => whole, 2 => decimals, 1 => tiny, 2 => from_int].boxed()
}
pub fn c12p() -> Property {
    Property {
        id: "C12",
        rule: "pairs of boundary-rich integers under + - * / against exact arithmetic (a panic counts as refusal, which is only allowed when a result or operand does not fit the type the operation uses); floats around powers of two, with and without decimals, both directions; non-trivial: magnitude above one",
        level: "exploration",
        assumptions: &["built with overflow checks, as the debug profile has"],
        checks: vec![
            Pbt::boxed(
                "arithmetic",
                3_840_000, 72_000_000,
                |_| {
                    let small = || (src_int(), 0..120_u32).prop_map(|(mut s, k)| {
                        let mag = s.i.n.mag >> k;
                        s.i = MInt { w: s.i.w, n: Num { neg: s.i.n.neg && mag != 0, mag } };
                        s
                    });
                    (prop_oneof![src_int().boxed(), small().boxed()], prop_oneof![src_int().boxed(), small().boxed()], 0..4_u8)
                },
                c12,
            ),
            Pbt::boxed("to_float", 1_920_000, 36_000_000, |_| src_int(), c12_to_float),
            Pbt::boxed("from_float", 2_880_000, 54_000_000, |_| int_floats(), c12_from_float),
        ],
    }
}

// ---------------------------------------------------------------- C13
fn polar(i: Imaginary) -> Option<(f64, f64)> {
    match i {
        Imaginary::PolarForm { modulus, argument } => Some((modulus, argument)),
        Imaginary::CartesianForm { .. } => None,
    }
}
fn c13_cart(i: &(SrcInt, SrcInt), case: &mut Case) -> TestResult {
    let (a, b) = (i.0.build()?, i.1.build()?);
    let (na, nb) = (i.0.i.n, i.1.i.n);
    int_case(&i.0, case);
    case.label(match (na.neg, nb.neg, na.mag == 0, nb.mag == 0) {
        (_, _, true, true) => "zero",
        (_, _, true, _) | (_, _, _, true) => "on_axis",
        (false, false, ..) => "q1",
        (true, false, ..) => "q2",
        (true, true, ..) => "q3",
        (false, true, ..) => "q4",
    });
    let c = Imaginary::CartesianForm { real: a, imaginary: b };
    match c.to_cartesian_form() {
        Ok(Imaginary::CartesianForm { real, imaginary }) => ensure!(int_num(&real) == Ok(na) && int_num(&imaginary) == Ok(nb), "cartesian {na},{nb} changes to {real},{imaginary}"),
        o => return violation(format!("cartesian {na},{nb} to cartesian gives {o:?}")),
    }
    let plain = |s: &SrcInt| SrcInt { i: s.i, src: Src::Padded(2) }.build();
    let same = Imaginary::CartesianForm { real: plain(&i.0)?, imaginary: plain(&i.1)? };
    ensure!(same == c && c == same && hash_of(&same) == hash_of(&c), "{na},{nb} differs from the same number made differently");
    let other = Imaginary::CartesianForm { real: plain(&i.1)?, imaginary: plain(&i.0)? };
    ensure!((other == c) == (na == nb), "equality of {na},{nb} and {nb},{na} is {}", other == c);
    let text = if nb.neg { format!("{na}{nb}i") } else { format!("{na}+{nb}i") };
    ensure!(c.to_string() == text, "{na},{nb} prints as {c}");
    let (m, arg) = polar(c.to_polar_form()).ok_or_else(|| v_err("to_polar_form gives cartesian"))?;
    let x: f64 = na.to_string().parse().map_err(v_err)?;
    let y: f64 = nb.to_string().parse().map_err(v_err)?;
    check_polar(x, y, m, arg)
}
fn check_polar(x: f64, y: f64, m: f64, arg: f64) -> TestResult {
    let want_m = x.hypot(y);
    ensure!(m >= 0.0 && (m == want_m || (m - want_m).abs() <= want_m * 1e-14), "|{x}+{y}i| = {m}, should be {want_m}");
    ensure!((-std::f64::consts::PI..=std::f64::consts::PI).contains(&arg), "arg({x}+{y}i) = {arg} is not in [-pi, pi]");
    let want = y.atan2(x);
    ensure!((arg - want).abs() <= 1e-14 * (1.0 + want.abs()), "arg({x}+{y}i) = {arg}, should be {want}");
    Ok(())
}
fn c13_floats(i: &(u64, u64), case: &mut Case) -> TestResult {
    let (x, y) = (f64::from_bits(i.0), f64::from_bits(i.1));
    if x.is_nan() || y.is_nan() {
        return Ok(());
    }
    case.nontrivial();
    case.label_if(x.is_infinite() || y.is_infinite(), "infinite");
    let (m, arg) = polar(Imaginary::polar_from_cartesian(x, y)).ok_or_else(|| v_err("polar_from_cartesian gives cartesian"))?;
    check_polar(x, y, m, arg)
}
fn c13_polar(i: &(u64, u64), case: &mut Case) -> TestResult {
    let (m, a) = (f64::from_bits(i.0), f64::from_bits(i.1));
    let p = Imaginary::PolarForm { modulus: m, argument: a };
    let (m2, a2) = polar(p.to_polar_form()).ok_or_else(|| v_err("polar to polar gives cartesian"))?;
    ensure!(m2.to_bits() == m.to_bits() && a2.to_bits() == a.to_bits(), "polar to polar changes {p:?}");
    let q = Imaginary::PolarForm { modulus: m + 0.0, argument: a + 0.0 };
    if !m.is_nan() && !a.is_nan() {
        ensure!(p == q && hash_of(&p) == hash_of(&q), "{p:?} and {q:?} differ");
    }
    let (x, y) = (m * a.cos(), m * a.sin());
    let part = |f: f64| -> Result<Option<Num>, ()> {
        if !f.is_finite() || f.fract().abs() > f64::EPSILON {
            return Ok(None);
        }
        if f.fract() != 0.0 {
            return Err(()); // below the tolerance: either answer
        }
        Ok(float_num(f))
    };
    if m.is_finite() && m.abs() > 1.0 {
        case.nontrivial();
    }
    let (wx, wy) = (part(x), part(y));
    match p.to_cartesian_form() {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            case.label("cartesian");
            for (f, w, g, what) in [(x, wx, real, "real"), (y, wy, imaginary, "imaginary")] {
                match w {
                    Ok(None) => return violation(format!("{p:?}: {what} part {f} cannot be an integer but becomes {g}")),
                    Ok(Some(w)) => ensure!(int_num(&g).map_err(v_err)? == w, "{p:?}: {what} part {f} becomes {g}"),
                    Err(()) => ensure!(Some(int_num(&g).map_err(v_err)?) == float_num(f.trunc()), "{p:?}: {what} part {f} becomes {g}"),
                }
            }
        }
        Ok(o) => return violation(format!("to_cartesian_form gives {o:?}")),
        Err((back, _)) => {
            case.label("refused");
            let (m2, a2) = polar(back).ok_or_else(|| v_err("the refused number changes form"))?;
            ensure!(m2.to_bits() == m.to_bits() && a2.to_bits() == a.to_bits(), "the refused {p:?} comes back as {m2},{a2}");
            ensure!(!(matches!(wx, Ok(Some(_))) && matches!(wy, Ok(Some(_)))), "{p:?} = {x}+{y}i is refused");
        }
    }
    Ok(())
}
fn c13_wire(i: &(SrcInt, SrcInt, u64, u64, Vec<u8>), case: &mut Case) -> TestResult {
    let (na, nb) = (i.0.i.n, i.1.i.n);
    int_case(&i.0, case);
    let c = Imaginary::CartesianForm { real: i.0.build()?, imaginary: i.1.build()? };
    let (magic, mut bytes) = c.ser();
    ensure!((1..=9).contains(&magic), "magic bits of a cartesian form: {magic}");
    let n = bytes.len();
    bytes.extend(&i.4);
    let mut cur = Cursor::new(&bytes);
    match Imaginary::deser(magic, &mut cur) {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            ensure!(int_num(&real) == Ok(na) && int_num(&imaginary) == Ok(nb), "{na},{nb} is read back as {real},{imaginary}");
            ensure!(cur.pos() == n, "{n} bytes written, {} consumed", cur.pos());
            // the documented bits tell the signs apart
            let again = Imaginary::CartesianForm { real, imaginary }.ser();
            ensure!(again.0 == magic && again.1[..] == bytes[..n], "{na},{nb} is written differently after being read");
        }
        o => return violation(format!("{na},{nb} is read back as {o:?}")),
    }
    let (m, a) = (f64::from_bits(i.2), f64::from_bits(i.3));
    let (magic, bytes) = Imaginary::PolarForm { modulus: m, argument: a }.ser();
    ensure!(magic == 0 && bytes.len() == 16, "a polar form is written as {magic} with {} bytes", bytes.len());
    let (m2, a2) = Imaginary::deser(0, &mut Cursor::new(&bytes)).ok().and_then(polar).ok_or_else(|| v_err("polar form not read back"))?;
    ensure!(m2.to_bits() == m.to_bits() && a2.to_bits() == a.to_bits(), "polar {m},{a} is read back as {m2},{a2}");
    Ok(())
}
pub fn c13p() -> Property {
    Property {
        id: "C13",
        rule: "cartesian pairs of boundary-rich integers in all quadrants and on the axes, float pairs, and polar forms near and far from integer coordinates, against hypot/atan2 and the documented conversion rule; wire form with trailing bytes; non-trivial: magnitude above one",
        level: "exploration",
        assumptions: &["relative error up to 1e-14 in modulus and argument is allowed"],
        checks: vec![
            Pbt::boxed("cartesian_to_polar", 1_440_000, 27_000_000, |_| (src_int(), src_int()), c13_cart),
            Pbt::boxed("floats_to_polar", 960_000, 18_000_000, |_| (f64_bits(), f64_bits()), c13_floats),
            Pbt::boxed(
                "polar_to_cartesian",
                1_920_000, 36_000_000,
                |_| {
                    prop_oneof![
                        1 => (f64_bits(), f64_bits()),
                        2 => (-1000_i32..1000, -8_i32..=8).prop_map(|(m, q)| (f64::from(m).to_bits(), (f64::from(q) * std::f64::consts::FRAC_PI_2).to_bits())),
                        2 => (num(), Just(0.0_f64.to_bits())).prop_map(|(n, a)| { let f: f64 = n.to_string().parse().unwrap_or(0.0); (f.to_bits(), a) }),
                        2 => (-200_i32..200, -200_i32..200).prop_map(|(x, y)| { let (x, y) = (f64::from(x), f64::from(y)); (x.hypot(y).to_bits(), y.atan2(x).to_bits()) }),
                        1 => ((-10.0_f64..10.0), (-7.0_f64..7.0)).prop_map(|(m, a)| (m.to_bits(), a.to_bits())),
                    ]
                },
                c13_polar,
            ),
            Pbt::boxed("wire_form", 960_000, 18_000_000, |_| (src_int(), src_int(), f64_bits(), f64_bits(), vec(any::<u8>(), 0..4)), c13_wire),
        ],
    }
}
