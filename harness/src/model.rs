//! The reference model of a value: a plain serde-able mirror of what a user puts into the
//! database, generators that favour the format's boundaries, and structural comparison of a
//! real `Value` with the model that does not use the library's own equality.
use crate::core::Tier;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use sourisdb::chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown::HashMap;
use sourisdb::store::Store;
use sourisdb::types::binary::BinaryData;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use sourisdb::values::Value;
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, Ipv6Addr};

/// A mathematical integer in `-2^127 ..= 2^128-1` .
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Num {
    pub neg: bool,
    pub mag: u128,
}
impl Num {
    pub fn i(v: i128) -> Self {
        Self { neg: v < 0, mag: v.unsigned_abs() }
    }
    pub fn u(v: u128) -> Self {
        Self { neg: false, mag: v }
    }
    pub fn as_i128(self) -> Option<i128> {
        if self.neg {
            if self.mag <= 1 << 127 {
                Some((self.mag as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(self.mag).ok()
        }
    }
    pub fn as_u128(self) -> Option<u128> {
        (!self.neg || self.mag == 0).then_some(self.mag)
    }
}
impl std::fmt::Display for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.neg && self.mag != 0 {
            write!(f, "-{}", self.mag)
        } else {
            write!(f, "{}", self.mag)
        }
    }
}
impl std::str::FromStr for Num {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let (neg, d) = s.strip_prefix('-').map_or((false, s), |d| (true, d));
        let mag: u128 = d.parse().map_err(|e| format!("{e}"))?;
        Ok(Self { neg: neg && mag != 0, mag })
    }
}
impl Serialize for Num {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}
impl<'de> Deserialize<'de> for Num {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

pub const WIDTHS: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

pub fn width_range(w: &str) -> (Num, Num) {
    match w {
        "u8" => (Num::u(0), Num::u(u8::MAX.into())),
        "u16" => (Num::u(0), Num::u(u16::MAX.into())),
        "u32" => (Num::u(0), Num::u(u32::MAX.into())),
        "u64" | "usize" => (Num::u(0), Num::u(u64::MAX.into())),
        "u128" => (Num::u(0), Num::u(u128::MAX)),
        "i8" => (Num::i(i8::MIN.into()), Num::i(i8::MAX.into())),
        "i16" => (Num::i(i16::MIN.into()), Num::i(i16::MAX.into())),
        "i32" => (Num::i(i32::MIN.into()), Num::i(i32::MAX.into())),
        "i64" | "isize" => (Num::i(i64::MIN.into()), Num::i(i64::MAX.into())),
        _ => (Num::i(i128::MIN), Num::i(i128::MAX)),
    }
}
pub fn in_width(n: Num, w: &str) -> bool {
    let (lo, hi) = width_range(w);
    if n.neg {
        lo.neg && n.mag <= lo.mag
    } else {
        n.mag <= hi.mag
    }
}

/// An integer together with the way it is put into the database.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct MInt {
    pub w: u8, // index into WIDTHS, 12 = parsed from text
    pub n: Num,
}
impl MInt {
    pub fn width(&self) -> &'static str {
        WIDTHS.get(self.w as usize).copied().unwrap_or("text")
    }
    pub fn build(&self) -> Integer {
        let i = self.n.as_i128();
        let u = self.n.as_u128();
        macro_rules! go { ($t:ty, $v:expr) => { Integer::from(<$t>::try_from($v.expect("model in range")).expect("model in range")) }; }
        match self.width() {
            "u8" => go!(u8, u),
            "u16" => go!(u16, u),
            "u32" => go!(u32, u),
            "u64" => go!(u64, u),
            "u128" => go!(u128, u),
            "usize" => go!(usize, u),
            "i8" => go!(i8, i),
            "i16" => go!(i16, i),
            "i32" => go!(i32, i),
            "i64" => go!(i64, i),
            "i128" => go!(i128, i),
            "isize" => go!(isize, i),
            _ => self.n.to_string().parse().expect("a decimal integer in range parses"),
        }
    }
}

/// Boundary-rich numbers: near every power of 256 and 2, the one-byte form's edge, uniform.
pub fn num() -> BoxedStrategy<Num> {
    let small = (0_i128..=300).prop_map(Num::i);
    let near_pow = (0_u32..=128, -3_i128..=3, any::<bool>()).prop_map(|(p, d, neg)| {
        let base: u128 = if p >= 128 { u128::MAX } else { 1_u128 << p };
        let mag = if d >= 0 { base.saturating_add(d as u128) } else { base.saturating_sub((-d) as u128) };
        let neg = neg && mag <= 1 << 127 && mag != 0;
        Num { neg, mag }
    });
    let byte_edge = (0_u32..16, 1_u128..=255, any::<bool>(), 0_u128..=2).prop_map(|(b, lead, neg, low)| {
        let mag = (lead << (8 * b)).saturating_add(low);
        Num { neg: neg && mag <= 1 << 127 && mag != 0, mag }
    });
    let neg_small = (1_i128..=70000).prop_map(|v| Num::i(-v));
    let uni = any::<u128>().prop_map(Num::u);
    let shifted = (any::<i128>(), 0_u32..127).prop_map(|(v, s)| Num::i(v >> s));
    // just beside the middle between two floats
    let halfway = (prop::sample::select(vec![24_u32, 53]), any::<u64>(), 0_u32..103, -2_i32..=2, any::<bool>()).prop_map(|(bits, m, s, d, neg)| {
        let odd = u128::from(m) & ((1 << bits) - 1) | 1 << bits | 1;
        let mag = (odd << s.min(127 - bits)).wrapping_add_signed(d.into());
        Num { neg: neg && mag <= 1 << 127, mag }
    });
    Union::new_weighted(vec![
        (2, halfway.boxed()),
        (3, small.boxed()),
        (4, near_pow.boxed()),
        (3, byte_edge.boxed()),
        (2, neg_small.boxed()),
        (1, uni.boxed()),
        (4, shifted.boxed()),
    ])
    .boxed()
}

pub fn mint() -> BoxedStrategy<MInt> {
    (num(), any::<prop::sample::Index>())
        .prop_map(|(n, ix)| {
            let mut fits: Vec<u8> = (0..12_u8).filter(|w| in_width(n, WIDTHS[*w as usize])).collect();
            fits.push(12);
            MInt { w: *ix.get(&fits), n }
        })
        .boxed()
}

pub fn f64_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        2 => prop::sample::select(vec![
            0.0_f64.to_bits(), (-0.0_f64).to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::NAN.to_bits(),
            f64::MIN_POSITIVE.to_bits(), 1, f64::MAX.to_bits(), f64::MIN.to_bits(), f64::EPSILON.to_bits(), 1.0_f64.to_bits(),
            0x7ff0_0000_0000_0001, 0xfff8_0000_0000_0001, (0.1_f64).to_bits(), (9007199254740993.0_f64).to_bits(), (1e15_f64).to_bits(), (1e16_f64).to_bits(), (1e17_f64).to_bits()
        ]),
        2 => (-1000_i32..1000).prop_map(|i| (f64::from(i) / 4.0).to_bits()),
        2 => any::<f64>().prop_map(f64::to_bits),
        1 => (any::<i64>()).prop_map(|i| (i as f64).to_bits()),
    ]
    .boxed()
}
pub fn f64_finite_bits() -> BoxedStrategy<u64> {
    f64_bits().prop_map(|b| if f64::from_bits(b).is_finite() { b } else { (b & 0xffff) << 40 | 0x3ff0_0000_0000_0000 }).boxed()
}
pub fn f32_bits() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => any::<u32>(),
        1 => prop::sample::select(vec![
            0.0_f32.to_bits(), (-0.0_f32).to_bits(), f32::INFINITY.to_bits(), f32::NAN.to_bits(), 1, f32::MAX.to_bits(), 1.0_f32.to_bits(), 0x7f80_0001
        ]),
        1 => (-1000_i16..1000).prop_map(|i| (f32::from(i) / 4.0).to_bits()),
    ]
    .boxed()
}

/// A JSON document with exact numbers.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MJ {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(u64),
    S(String),
    A(Vec<MJ>),
    O(BTreeMap<String, MJ>),
}
impl MJ {
    pub fn build(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            MJ::Null => J::Null,
            MJ::Bool(b) => J::Bool(*b),
            MJ::U(u) => J::from(*u),
            MJ::I(i) => J::from(*i),
            MJ::F(b) => serde_json::Number::from_f64(f64::from_bits(*b)).map_or(J::Null, J::Number),
            MJ::S(s) => J::String(s.clone()),
            MJ::A(a) => J::Array(a.iter().map(MJ::build).collect()),
            MJ::O(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), v.build())).collect()),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            MJ::A(a) => 1 + a.iter().map(MJ::size).sum::<usize>(),
            MJ::O(o) => 1 + o.values().map(MJ::size).sum::<usize>(),
            _ => 1,
        }
    }
}

/// Exact comparison of two JSON values: integers numerically, floats bit for bit.
pub fn json_same(a: &serde_json::Value, b: &serde_json::Value, path: &str) -> Result<(), String> {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(x), J::Number(y)) => {
            let ok = if x.is_f64() || y.is_f64() {
                x.is_f64() && y.is_f64() && x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits)
            } else {
                x.as_u64() == y.as_u64() && x.as_i64() == y.as_i64()
            };
            if ok { Ok(()) } else { Err(format!("{path}: number {x} became {y}")) }
        }
        (J::Array(x), J::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{path}: array of {} became {}", x.len(), y.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                json_same(p, q, &format!("{path}[{i}]"))?;
            }
            Ok(())
        }
        (J::Object(x), J::Object(y)) => {
            for k in x.keys() {
                if !y.contains_key(k) {
                    return Err(format!("{path}: key {k:?} lost"));
                }
            }
            for (k, v) in y {
                match x.get(k) {
                    None => return Err(format!("{path}: key {k:?} appeared")),
                    Some(u) => json_same(u, v, &format!("{path}.{k}"))?,
                }
            }
            Ok(())
        }
        _ => {
            if a == b {
                Ok(())
            } else {
                Err(format!("{path}: {} became {}", crate::core::truncate(&a.to_string(), 200), crate::core::truncate(&b.to_string(), 200)))
            }
        }
    }
}

pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-d]{1,2}".prop_map(String::from),
        2 => "[ -~]{0,12}".prop_map(String::from),
        2 => any::<String>(),
        1 => Just(String::new()),
        1 => Just("JSON".to_string()),
        1 => "\\PC{0,4}".prop_map(String::from),
        1 => (any::<char>(), prop_oneof![237..260_usize, Just(127), Just(128), 30..64_usize]).prop_map(|(c, n)| std::iter::repeat(c).take(n).collect()),
    ]
    .boxed()
}
pub fn text(tier: Tier) -> BoxedStrategy<String> {
    let long: usize = if tier == Tier::Quick { 600 } else { 6000 };
    prop_oneof![
        4 => any::<String>(),
        3 => "[ -~]{0,20}".prop_map(String::from),
        2 => (any::<char>(), prop_oneof![Just(0_usize), Just(1), Just(7), Just(8), Just(9), 0..40_usize, 230..270_usize]).prop_map(|(c, n)| std::iter::repeat(c).take(n).collect()),
        2 => "[ab\u{0}]{0,30}".prop_map(String::from),
        1 => (0..long, any::<String>(), "[a-z]{1,4}").prop_map(|(n, s, t)| format!("{s}{}", t.repeat(n / 4))),
        1 => prop::sample::select(vec!["\u{0}", "\u{10FFFF}", "\u{D7FF}\u{E000}", "é", "🖖🖖", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn mj_with(tier: Tier, floats: BoxedStrategy<u64>) -> BoxedStrategy<MJ> {
    let leaf = prop_oneof![
        1 => Just(MJ::Null),
        1 => any::<bool>().prop_map(MJ::Bool),
        2 => prop_oneof![any::<u64>(), Just(u64::MAX), Just(i64::MAX as u64), Just(i64::MAX as u64 + 1), 0..600_u64].prop_map(MJ::U),
        2 => prop_oneof![any::<i64>(), Just(i64::MIN), Just(-1), Just(-129), -70000..0_i64].prop_map(|i| if i >= 0 { MJ::U(i as u64) } else { MJ::I(i) }),
        2 => floats.prop_map(MJ::F),
        3 => text(tier).prop_map(MJ::S),
    ];
    leaf.prop_recursive(5, 40, 9, move |inner| {
        prop_oneof![
            vec(inner.clone(), 0..9).prop_map(MJ::A),
            btree_map(key(), inner, 0..9).prop_map(MJ::O),
        ]
    })
    .boxed()
}
pub fn mj(tier: Tier) -> BoxedStrategy<MJ> {
    mj_with(tier, f64_finite_bits())
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MV {
    Ch(char),
    Str(String),
    Bin(MBin),
    Bool(bool),
    Int(MInt),
    Cart(MInt, MInt),
    Polar(u64, u64),
    Ts(MTs),
    Json(MJ),
    Null,
    F32(u32),
    F64(u64),
    Arr(Vec<MV>),
    Map(BTreeMap<String, MV>),
    Tz(u16),
    V4([u8; 4]),
    V6([u16; 8]),
    /// `n` copies of a small value (for arrays at the length boundaries).
    Rep(Box<MV>, u32),
    /// `n` keys "0".."n-1" with the same value.
    MapN(Box<MV>, u32),
    /// nested `n` single-element arrays deep
    Deep(Box<MV>, u32),
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct MTs {
    pub y: i32,
    pub ord: u32,
    pub secs: u32,
    pub ns: u32,
}
impl MTs {
    pub fn build(&self) -> Option<NaiveDateTime> {
        Some(NaiveDateTime::new(
            NaiveDate::from_yo_opt(self.y, self.ord)?,
            NaiveTime::from_num_seconds_from_midnight_opt(self.secs, self.ns).or_else(|| {
                NaiveTime::from_num_seconds_from_midnight_opt(self.secs, 0)?.with_nanosecond(self.ns)
            })?,
        ))
    }
}
/// Binary contents as a list of runs, so that long contents stay readable.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MBin {
    Bytes(Vec<u8>),
    Runs(Vec<(u8, u32)>),
    Repeat(Vec<u8>, u32),
    Noise(u64, u32),
}
impl MBin {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            MBin::Bytes(b) => b.clone(),
            MBin::Runs(r) => r.iter().flat_map(|(b, n)| std::iter::repeat(*b).take(*n as usize)).collect(),
            MBin::Repeat(b, n) => b.repeat(*n as usize),
            MBin::Noise(seed, n) => {
                let mut s = *seed | 1;
                (0..*n)
                    .map(|_| {
                        s ^= s << 13;
                        s ^= s >> 7;
                        s ^= s << 17;
                        (s >> 33) as u8
                    })
                    .collect()
            }
        }
    }
}

pub fn mbin(tier: Tier) -> BoxedStrategy<MBin> {
    let big = if tier == Tier::Quick { 3000_u32 } else { 60_000 };
    let edge = prop_oneof![Just(0_u32), Just(1), Just(2), Just(238), Just(239), Just(240), Just(254), Just(255), Just(256), Just(257), Just(510), Just(511), Just(65535), Just(65536), 0..700_u32];
    prop_oneof![
        4 => vec(any::<u8>(), 0..40).prop_map(MBin::Bytes),
        2 => vec(any::<u8>(), 230..300).prop_map(MBin::Bytes),
        3 => vec((any::<u8>(), edge.clone()), 1..4).prop_map(MBin::Runs),
        3 => vec((prop::sample::select(vec![0_u8, 1, 255]), 0..20_u32), 1..30).prop_map(MBin::Runs),
        2 => (vec(any::<u8>(), 1..40), 0..60_u32).prop_map(|(b, n)| MBin::Repeat(b, n)),
        1 => (any::<u64>(), 0..big).prop_map(|(s, n)| MBin::Noise(s, n)),
        2 => vec(prop::sample::select(vec![b'a', b'b', b'c']), 0..60).prop_map(MBin::Bytes),
    ]
    .boxed()
}

pub fn mts() -> BoxedStrategy<MTs> {
    let year = prop_oneof![1900..2100_i32, -400..400_i32, Just(-262142_i32), Just(262141), Just(0), Just(-1), Just(9999), Just(10000), Just(-128), Just(-129), Just(-256), -262142..=262141_i32, Just(127), Just(128)];
    let ord = prop_oneof![1..=365_u32, Just(1), Just(60), Just(365)];
    let secs = prop_oneof![0..86400_u32, Just(0), Just(86399), Just(59), Just(3600)];
    let ns = prop_oneof![0..1_000_000_000_u32, Just(0), Just(999_999_999), (0..1000_u32).prop_map(|m| m * 1_000_000), (0..1_000_000_u32).prop_map(|m| m * 1000), Just(1), Just(239), Just(240)];
    (year, ord, secs, ns, 0..20_u8)
        .prop_map(|(y, ord, secs, ns, leap)| {
            // a leap second is second 59 with a second of extra nanoseconds
            if leap == 0 {
                MTs { y, ord, secs: secs / 60 * 60 + 59, ns: ns + 1_000_000_000 }
            } else if leap == 1 {
                MTs { y, ord, secs, ns: ns + 1_000_000_000 }
            } else {
                MTs { y, ord, secs, ns }
            }
        })
        .boxed()
}

pub fn leaf(tier: Tier) -> BoxedStrategy<MV> {
    leaf_with(tier, f64_finite_bits())
}
pub fn leaf_with(tier: Tier, json_floats: BoxedStrategy<u64>) -> BoxedStrategy<MV> {
    prop_oneof![
        2 => prop_oneof![any::<char>(), proptest::char::range('\u{0}', '\u{ff}'), Just('\u{10ffff}')].prop_map(MV::Ch),
        4 => text(tier).prop_map(MV::Str),
        3 => mbin(tier).prop_map(MV::Bin),
        2 => any::<bool>().prop_map(MV::Bool),
        4 => mint().prop_map(MV::Int),
        3 => (mint(), mint()).prop_map(|(a, b)| MV::Cart(a, b)),
        2 => (f64_bits(), f64_bits()).prop_map(|(a, b)| MV::Polar(a, b)),
        3 => mts().prop_map(MV::Ts),
        2 => mj_with(tier, json_floats).prop_map(MV::Json),
        1 => Just(MV::Null),
        2 => f32_bits().prop_map(MV::F32),
        2 => f64_bits().prop_map(MV::F64),
        2 => (0..TZ_VARIANTS.len() as u16).prop_map(MV::Tz),
        1 => any::<[u8; 4]>().prop_map(MV::V4),
        1 => any::<[u16; 8]>().prop_map(MV::V6),
    ]
    .boxed()
}
fn edge_len() -> BoxedStrategy<u32> {
    prop_oneof![Just(6_u32), Just(7), Just(8), Just(14), Just(15), Just(16), Just(127), Just(128), Just(238), Just(239), Just(240), Just(241), Just(255), Just(256), Just(257), 0..20_u32].boxed()
}
/// Values of any shape.
pub fn mv(tier: Tier) -> BoxedStrategy<MV> {
    mv_from(leaf(tier))
}
pub fn mv_from(leaf: BoxedStrategy<MV>) -> BoxedStrategy<MV> {
    let tree = leaf.prop_recursive(4, 40, 9, |inner| {
        prop_oneof![
            4 => vec(inner.clone(), 0..9).prop_map(MV::Arr),
            4 => btree_map(key(), inner.clone(), 0..9).prop_map(MV::Map),
            1 => (inner.clone(), 1..12_u32).prop_map(|(v, n)| MV::Deep(Box::new(v), n)),
        ]
    });
    let tiny = prop_oneof![
        Just(MV::Null),
        any::<bool>().prop_map(MV::Bool),
        "[a-c]{0,2}".prop_map(MV::Str),
        Just(MV::Arr(vec![])),
        Just(MV::Map(BTreeMap::new())),
        mint().prop_map(MV::Int),
    ];
    prop_oneof![
        10 => tree,
        1 => (tiny.clone(), edge_len()).prop_map(|(v, n)| MV::Rep(Box::new(v), n)),
        1 => (tiny, edge_len()).prop_map(|(v, n)| MV::MapN(Box::new(v), n)),
    ]
    .boxed()
}
pub type MStore = BTreeMap<String, MV>;
pub fn mstore(tier: Tier) -> BoxedStrategy<MStore> {
    mstore_from(mv(tier))
}
pub fn mstore_from(v: BoxedStrategy<MV>) -> BoxedStrategy<MStore> {
    prop_oneof![
        8 => btree_map(key(), v.clone(), 0..10),
        1 => (v.clone(), edge_len()).prop_map(|(v, n)| (0..n.min(20)).map(|i| (format!("k{i}"), v.clone())).collect()),
        1 => (any::<char>(), 1..5_usize, v).prop_map(|(c, n, v)| (0..n).map(|i| (std::iter::repeat(c).take(i).collect::<String>(), if i == 0 { v.clone() } else { MV::Null })).collect()),
    ]
    .boxed()
}

/// Lengths far beyond the ones the other generators use.
fn big_len() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => prop::sample::select(vec![511_u32, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768]),
        3 => prop::sample::select(vec![65534_u32, 65535, 65536, 65537, 65774, 65775, 65776]),
        2 => 300..5000_u32,
        1 => 5000..80_000_u32,
    ]
    .boxed()
}
/// Long texts: repetitive ones, and ones of very many different characters.
pub fn big_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => ("[a-e ]{1,5}", big_len()).prop_map(|(s, n)| s.chars().cycle().take(n as usize).collect::<String>()),
        2 => (any::<char>(), 1..400_u32, big_len()).prop_map(|(c, step, n)| {
            (0..n).filter_map(|i| char::from_u32((c as u32 + i % 1500 * step) % 0x0011_0000)).collect::<String>()
        }),
        1 => (any::<u64>(), big_len()).prop_map(|(s, n)| MBin::Noise(s, n).bytes().into_iter().map(char::from).collect::<String>()),
        1 => (any::<String>(), big_len()).prop_map(|(s, n)| s.chars().chain(std::iter::repeat('x')).take(n as usize).collect::<String>()),
    ]
    .boxed()
}
/// Values that are large in one way or another.
pub fn big_mv() -> BoxedStrategy<MV> {
    let tiny = || {
        prop_oneof![
            Just(MV::Null),
            any::<bool>().prop_map(MV::Bool),
            "[a-c]{0,2}".prop_map(MV::Str),
            Just(MV::Arr(vec![])),
            mint().prop_map(MV::Int),
        ]
    };
    let small = || prop_oneof![3 => leaf(Tier::Quick), 1 => mv(Tier::Quick)];
    prop_oneof![
        2 => (tiny(), big_len()).prop_map(|(v, n)| MV::Rep(Box::new(v), n)),
        2 => (tiny(), big_len()).prop_map(|(v, n)| MV::MapN(Box::new(v), n)),
        3 => big_text().prop_map(MV::Str),
        2 => (small(), prop_oneof![13..=128_u32, Just(63_u32), Just(64), Just(127), Just(128)]).prop_map(|(v, n)| { let d = v.depth(); MV::Deep(Box::new(v), n.saturating_sub(d).max(1)) }),
        1 => (any::<u64>(), big_len()).prop_map(|(s, n)| MV::Bin(MBin::Noise(s, n * 3))),
        1 => (any::<u64>(), 60_000..400_000_u32).prop_map(|(s, n)| MV::Bin(MBin::Noise(s, n))),
        1 => vec((any::<u8>(), big_len()), 1..6).prop_map(|r| MV::Bin(MBin::Runs(r))),
        1 => (vec(any::<u8>(), 1..300), 1..400_u32).prop_map(|(b, n)| MV::Bin(MBin::Repeat(b, n))),
        1 => (big_text(), mj(Tier::Quick)).prop_map(|(s, j)| MV::Json(MJ::O(BTreeMap::from([("t".to_string(), MJ::S(s)), ("j".to_string(), j)])))),
        1 => (mint(), big_len()).prop_map(|(i, n)| MV::Json(MJ::A(vec![MJ::U(i.n.mag as u64); n as usize]))),
        1 => (big_text(), small()).prop_map(|(k, v)| MV::Map(BTreeMap::from([(k, v)]))),
        1 => vec(leaf(Tier::Quick), 100..600).prop_map(MV::Arr),
        1 => btree_map(key(), leaf(Tier::Quick), 100..300).prop_map(MV::Map),
    ]
    .boxed()
}
/// Stores with large values, long keys or many entries.
pub fn big_store() -> BoxedStrategy<MStore> {
    prop_oneof![
        4 => (btree_map(key(), mv(Tier::Quick), 0..4), key(), big_mv()).prop_map(|(mut m, k, v)| { m.insert(k, v); m }),
        1 => (big_text(), mv(Tier::Quick)).prop_map(|(k, v)| MStore::from([(k, v)])),
        1 => btree_map(key(), leaf(Tier::Quick), 40..300),
        1 => (leaf(Tier::Quick), big_len()).prop_map(|(v, n)| (0..n.min(if v.weight() > 60 { 300 } else { 70_000 })).map(|i| (format!("{i:x}"), v.clone())).collect()),
    ]
    .boxed()
}

impl MV {
    /// How many containers are inside each other.
    pub fn depth(&self) -> u32 {
        match self {
            MV::Deep(v, n) => v.depth() + n,
            o if o.is_container() => 1 + o.children().iter().map(|c| c.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// A rough measure of the room a value takes.
    pub fn weight(&self) -> usize {
        match self {
            MV::Str(s) => s.len(),
            MV::Bin(b) => b.bytes().len(),
            MV::Json(_) => 100,
            MV::Arr(_) | MV::Map(_) | MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => 1000,
            _ => 10,
        }
    }
    pub fn build(&self) -> Value {
        match self {
            MV::Ch(c) => Value::Character(*c),
            MV::Str(s) => Value::String(s.clone()),
            MV::Bin(b) => Value::Binary(BinaryData(b.bytes())),
            MV::Bool(b) => Value::Boolean(*b),
            MV::Int(i) => Value::Integer(i.build()),
            MV::Cart(a, b) => Value::Imaginary(Imaginary::CartesianForm { real: a.build(), imaginary: b.build() }),
            MV::Polar(a, b) => Value::Imaginary(Imaginary::PolarForm { modulus: f64::from_bits(*a), argument: f64::from_bits(*b) }),
            MV::Ts(t) => Value::Timestamp(t.build().expect("model timestamp is valid")),
            MV::Json(j) => Value::JSON(j.build()),
            MV::Null => Value::Null(()),
            MV::F32(b) => Value::SingleFloat(f32::from_bits(*b)),
            MV::F64(b) => Value::DoubleFloat(f64::from_bits(*b)),
            MV::Arr(a) => Value::Array(a.iter().map(MV::build).collect()),
            MV::Map(m) => Value::Map(m.iter().map(|(k, v)| (k.clone(), v.build())).collect()),
            MV::Tz(i) => Value::Timezone(TZ_VARIANTS[*i as usize % TZ_VARIANTS.len()]),
            MV::V4(o) => Value::Ipv4Addr(Ipv4Addr::from(*o)),
            MV::V6(s) => Value::Ipv6Addr(Ipv6Addr::from(*s)),
            MV::Rep(v, n) => Value::Array((0..*n).map(|_| v.build()).collect()),
            MV::MapN(v, n) => Value::Map((0..*n).map(|i| (i.to_string(), v.build())).collect()),
            MV::Deep(v, n) => (0..*n).rev().fold(v.build(), |acc, i| if i % 3 == 2 { Value::Map(std::iter::once(("k".to_string(), acc)).collect()) } else { Value::Array(vec![acc]) }),
        }
    }
    /// The same value without the shorthand variants.
    pub fn expand(&self) -> MV {
        match self {
            MV::Rep(v, n) => MV::Arr((0..*n).map(|_| v.expand()).collect()),
            MV::MapN(v, n) => MV::Map((0..*n).map(|i| (i.to_string(), v.expand())).collect()),
            MV::Deep(v, n) => (0..*n).rev().fold(v.expand(), |acc, i| if i % 3 == 2 { MV::Map(BTreeMap::from([("k".to_string(), acc)])) } else { MV::Arr(vec![acc]) }),
            MV::Arr(a) => MV::Arr(a.iter().map(MV::expand).collect()),
            MV::Map(m) => MV::Map(m.iter().map(|(k, v)| (k.clone(), v.expand())).collect()),
            o => o.clone(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            MV::Ch(_) => "character",
            MV::Str(_) => "string",
            MV::Bin(_) => "binary",
            MV::Bool(_) => "boolean",
            MV::Int(_) => "integer",
            MV::Cart(..) => "cartesian",
            MV::Polar(..) => "polar",
            MV::Ts(_) => "timestamp",
            MV::Json(_) => "json",
            MV::Null => "null",
            MV::F32(_) => "single_float",
            MV::F64(_) => "double_float",
            MV::Arr(_) | MV::Rep(..) | MV::Deep(..) => "array",
            MV::Map(_) | MV::MapN(..) => "map",
            MV::Tz(_) => "timezone",
            MV::V4(_) => "ipv4",
            MV::V6(_) => "ipv6",
        }
    }
    pub fn children(&self) -> Vec<&MV> {
        match self {
            MV::Arr(a) => a.iter().collect(),
            MV::Map(m) => m.values().collect(),
            MV::Rep(v, _) | MV::MapN(v, _) | MV::Deep(v, _) => vec![v],
            _ => vec![],
        }
    }
    pub fn any(&self, f: &dyn Fn(&MV) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn is_container(&self) -> bool {
        matches!(self, MV::Arr(_) | MV::Map(_) | MV::Rep(..) | MV::MapN(..) | MV::Deep(..))
    }
    pub fn labels(&self, case: &mut crate::core::Case) {
        case.label(self.kind());
        for c in self.children() {
            c.labels(case);
        }
    }
}

pub fn build_store(m: &MStore) -> Store {
    Store::new(m.iter().map(|(k, v)| (k.clone(), v.build())))
}

/// Observes an `Integer` numerically through its public conversions.
pub fn int_num(i: &Integer) -> Result<Num, String> {
    if i.is_negative() {
        i128::try_from(*i).map(Num::i).map_err(|e| format!("negative integer does not convert: {e}"))
    } else {
        u128::try_from(*i).map(Num::u).map_err(|e| format!("non-negative integer does not convert: {e}"))
    }
}
fn same_int(m: &MInt, i: &Integer, path: &str) -> Result<(), String> {
    let n = int_num(i).map_err(|e| format!("{path}: {e}"))?;
    if n != m.n {
        return Err(format!("{path}: integer {} ({}) became {n}", m.n, m.width()));
    }
    Ok(())
}

/// What a JSON text round trip is allowed to do to floats (see known findings): filled with the
/// number of floats that serde_json itself does not read back exactly.
#[derive(Default)]
pub struct Tolerance {
    pub lossy_json_floats: u32,
}

/// Whether serde_json's own text form of this finite float reads back as another float.
pub fn json_text_float(bits: u64) -> u64 {
    let f = f64::from_bits(bits);
    let s = serde_json::Value::from(f).to_string();
    serde_json::from_str::<serde_json::Value>(&s).ok().and_then(|v| v.as_f64()).map_or(bits, f64::to_bits)
}

fn same_json(m: &MJ, v: &serde_json::Value, path: &str, tol: &mut Tolerance) -> Result<(), String> {
    use serde_json::Value as J;
    match (m, v) {
        (MJ::F(b), J::Number(n)) if n.is_f64() => {
            let got = n.as_f64().map(f64::to_bits).unwrap_or_default();
            if got == *b {
                return Ok(());
            }
            let text = json_text_float(*b);
            if text != *b && got == text {
                tol.lossy_json_floats += 1;
                return Ok(());
            }
            Err(format!("{path}: JSON float {:?} became {:?}", f64::from_bits(*b), f64::from_bits(got)))
        }
        (MJ::A(a), J::Array(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: JSON array of {} became {}", a.len(), b.len()));
            }
            for (i, (p, q)) in a.iter().zip(b).enumerate() {
                same_json(p, q, &format!("{path}[{i}]"), tol)?;
            }
            Ok(())
        }
        (MJ::O(a), J::Object(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: JSON object of {} became {}", a.len(), b.len()));
            }
            for (k, p) in a {
                let q = b.get(k).ok_or_else(|| format!("{path}: JSON key {k:?} lost"))?;
                same_json(p, q, &format!("{path}.{k}"), tol)?;
            }
            Ok(())
        }
        _ => json_same(&m.build(), v, path),
    }
}

/// Does the real value carry exactly what the model says?
pub fn same(m: &MV, v: &Value, path: &str, tol: &mut Tolerance) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{path}: {} became {}", what, crate::core::truncate(&format!("{v:?}"), 300)));
    match (m, v) {
        (MV::Rep(..) | MV::MapN(..) | MV::Deep(..), _) => same(&m.expand(), v, path, tol),
        (MV::Ch(a), Value::Character(b)) if a == b => Ok(()),
        (MV::Str(a), Value::String(b)) if a == b => Ok(()),
        (MV::Bin(a), Value::Binary(b)) if a.bytes() == b.0 => Ok(()),
        (MV::Bool(a), Value::Boolean(b)) if a == b => Ok(()),
        (MV::Int(a), Value::Integer(b)) => same_int(a, b, path),
        (MV::Cart(a, b), Value::Imaginary(Imaginary::CartesianForm { real, imaginary })) => {
            same_int(a, real, &format!("{path}.real"))?;
            same_int(b, imaginary, &format!("{path}.imaginary"))
        }
        (MV::Polar(a, b), Value::Imaginary(Imaginary::PolarForm { modulus, argument })) if *a == modulus.to_bits() && *b == argument.to_bits() => Ok(()),
        (MV::Ts(t), Value::Timestamp(b)) => same_ts(t, b, path),
        (MV::Json(a), Value::JSON(b)) => same_json(a, b, path, tol),
        (MV::Null, Value::Null(())) => Ok(()),
        (MV::F32(a), Value::SingleFloat(b)) if *a == b.to_bits() => Ok(()),
        (MV::F64(a), Value::DoubleFloat(b)) if *a == b.to_bits() => Ok(()),
        (MV::Arr(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: array of {} became {}", a.len(), b.len()));
            }
            for (i, (p, q)) in a.iter().zip(b).enumerate() {
                same(p, q, &format!("{path}[{i}]"), tol)?;
            }
            Ok(())
        }
        (MV::Map(a), Value::Map(b)) => same_map(a, b, path, tol),
        (MV::Tz(a), Value::Timezone(b)) if TZ_VARIANTS[*a as usize % TZ_VARIANTS.len()].name() == b.name() => Ok(()),
        (MV::V4(a), Value::Ipv4Addr(b)) if *a == b.octets() => Ok(()),
        (MV::V6(a), Value::Ipv6Addr(b)) if *a == b.segments() => Ok(()),
        _ => bad(&crate::core::truncate(&format!("{m:?}"), 300)),
    }
}
pub fn same_ts(t: &MTs, b: &NaiveDateTime, path: &str) -> Result<(), String> {
    let got = (b.year(), b.ordinal(), b.num_seconds_from_midnight(), b.nanosecond());
    if got == (t.y, t.ord, t.secs, t.ns) {
        Ok(())
    } else {
        Err(format!("{path}: timestamp {t:?} became {b:?}"))
    }
}
pub fn same_map(a: &BTreeMap<String, MV>, b: &HashMap<String, Value>, path: &str, tol: &mut Tolerance) -> Result<(), String> {
    for k in b.keys() {
        if !a.contains_key(k) {
            return Err(format!("{path}: key {k:?} appeared"));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{path}: map of {} keys became {}", a.len(), b.len()));
    }
    for (k, p) in a {
        let q = b.get(k).ok_or_else(|| format!("{path}: key {k:?} lost"))?;
        same(p, q, &format!("{path}[{k:?}]"), tol)?;
    }
    Ok(())
}
pub fn same_store(a: &MStore, b: &Store, tol: &mut Tolerance) -> Result<(), String> {
    same_map(a, b, "store", tol)
}

/// The model of a real value, for values that come out of a decoder.
pub fn model_of(v: &Value) -> Result<MV, String> {
    let int = |i: &Integer| -> Result<MInt, String> { Ok(MInt { w: 12, n: int_num(i)? }) };
    Ok(match v {
        Value::Character(c) => MV::Ch(*c),
        Value::String(s) => MV::Str(s.clone()),
        Value::Binary(b) => MV::Bin(MBin::Bytes(b.0.clone())),
        Value::Boolean(b) => MV::Bool(*b),
        Value::Integer(i) => MV::Int(int(i)?),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => MV::Cart(int(real)?, int(imaginary)?),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => MV::Polar(modulus.to_bits(), argument.to_bits()),
        Value::Timestamp(b) => MV::Ts(MTs { y: b.year(), ord: b.ordinal(), secs: b.num_seconds_from_midnight(), ns: b.nanosecond() }),
        Value::JSON(j) => MV::Json(mj_of(j)),
        Value::Null(()) => MV::Null,
        Value::SingleFloat(f) => MV::F32(f.to_bits()),
        Value::DoubleFloat(f) => MV::F64(f.to_bits()),
        Value::Array(a) => MV::Arr(a.iter().map(model_of).collect::<Result<_, _>>()?),
        Value::Map(m) => MV::Map(m.iter().map(|(k, v)| Ok((k.clone(), model_of(v)?))).collect::<Result<_, String>>()?),
        Value::Timezone(t) => MV::Tz(tz_index(*t)),
        Value::Ipv4Addr(a) => MV::V4(a.octets()),
        Value::Ipv6Addr(a) => MV::V6(a.segments()),
    })
}
pub fn tz_index(t: Tz) -> u16 {
    TZ_VARIANTS.iter().position(|x| x.name() == t.name()).unwrap_or(0) as u16
}
pub fn mj_of(j: &serde_json::Value) -> MJ {
    use serde_json::Value as J;
    match j {
        J::Null => MJ::Null,
        J::Bool(b) => MJ::Bool(*b),
        J::Number(n) => {
            if let Some(u) = n.as_u64() {
                MJ::U(u)
            } else if let Some(i) = n.as_i64() {
                MJ::I(i)
            } else {
                MJ::F(n.as_f64().unwrap_or_default().to_bits())
            }
        }
        J::String(s) => MJ::S(s.clone()),
        J::Array(a) => MJ::A(a.iter().map(mj_of).collect()),
        J::Object(o) => MJ::O(o.iter().map(|(k, v)| (k.clone(), mj_of(v))).collect()),
    }
}

/// Known-finding signature for the lossy float read of serde_json.
pub const SIG_JSON_FLOAT: &str = "json-float-1ulp";
pub fn tolerance_result(tol: &Tolerance) -> crate::core::TestResult {
    if tol.lossy_json_floats > 0 {
        return Err(crate::core::Fail::Known {
            sig: SIG_JSON_FLOAT.into(),
            msg: "a JSON float was read back as the neighbouring float".into(),
        });
    }
    Ok(())
}
