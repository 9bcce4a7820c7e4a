//! C14-C17: JSON import and export, equality and hashing, typed access.
use crate::core::*;
use crate::ensure;
use crate::harness_err;
use crate::model::*;
use crate::p_codec::{hash_of, v_err};
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use sourisdb::chrono::NaiveDateTime;
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown;
use sourisdb::store::Store;
use sourisdb::types::binary::BinaryData;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use sourisdb::values::{Value, ValueSerError, ValueTy};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::{Ipv4Addr, Ipv6Addr};

pub const SIG_WRAPPER: &str = "json-wrapper-ambiguity";

/// Compares what came back with what was put in; the one shape that the format itself cannot
/// tell apart carries its own signature.
fn doc_same(want: &J, got: &J, what: &str) -> TestResult {
    if let J::Object(o) = want {
        if let (1, Some(inner)) = (o.len(), o.get("JSON")) {
            if !inner.is_object() && json_same(inner, got, "").is_ok() {
                return Err(Fail::Known { sig: SIG_WRAPPER.into(), msg: format!("{what}: {want} came back without its key as {got}") });
            }
        }
    }
    json_same(want, got, what).map_err(Fail::Violation)
}

// ---------------------------------------------------------------- C14
fn c14_doc(i: &(MJ, bool), case: &mut Case) -> TestResult {
    let (m, types) = i;
    let doc = m.build();
    case.label(match m {
        MJ::O(_) => "object",
        MJ::A(_) => "array",
        _ => "scalar",
    });
    if m.size() > 2 {
        case.nontrivial();
    }
    let s = Store::from_json(doc.clone()).map_err(|e| v_err(format!("a JSON document is refused: {e}")))?;
    if let J::Object(o) = &doc {
        ensure!(s.len() == o.len(), "an object of {} keys makes a store of {}", o.len(), s.len());
    }
    let bytes = s.ser();
    let out = s.to_json(*types).ok_or_else(|| v_err("an imported document cannot be exported"))?;
    let mut known = doc_same(&doc, &out, "document").err();
    if let Some(Fail::Violation(_)) = known {
        return Err(known.unwrap_or(Fail::Harness(String::new())));
    }
    let s2 = Store::deser(&bytes).map_err(|e| v_err(format!("an imported document is not read back: {e}")))?;
    let out = s2.to_json(*types).ok_or_else(|| v_err("a stored document cannot be exported"))?;
    match doc_same(&doc, &out, "document after storage") {
        Err(Fail::Violation(v)) => return Err(Fail::Violation(v)),
        Err(k) => known = Some(k),
        Ok(()) => {}
    }
    // as text, compared with what the JSON parser itself makes of that text
    let text = serde_json::to_vec(&doc).map_err(|e| harness_err!("{e}"))?;
    let parsed: J = serde_json::from_slice(&text).map_err(|e| harness_err!("{e}"))?;
    let s3 = Store::from_json_bytes(&text).map_err(|e| v_err(format!("JSON text is refused: {e}")))?;
    let out = s3.to_json(*types).ok_or_else(|| v_err("an imported text cannot be exported"))?;
    match doc_same(&parsed, &out, "text") {
        Err(Fail::Violation(v)) => return Err(Fail::Violation(v)),
        Err(k) => known = Some(k),
        Ok(()) => {}
    }
    // and through the typed functions
    let b = Store::to_bytes(&doc).map_err(|e| v_err(format!("to_bytes refuses a document: {e}")))?;
    let back: J = Store::from_bytes(&b).map_err(|e| v_err(format!("from_bytes refuses own bytes: {e}")))?;
    match doc_same(&doc, &back, "to_bytes/from_bytes") {
        Err(Fail::Violation(v)) => return Err(Fail::Violation(v)),
        Err(k) => known = Some(k),
        Ok(()) => {}
    }
    known.map_or(Ok(()), Err)
}
fn c14_text(b: &Vec<u8>, case: &mut Case) -> TestResult {
    let parsed = serde_json::from_slice::<J>(b);
    let got = Store::from_json_bytes(b);
    case.label(if parsed.is_ok() { "valid" } else { "invalid" });
    if b.len() > 2 {
        case.nontrivial();
    }
    match (parsed, got) {
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(s)) => violation(format!("{:?} is not JSON ({e}) but makes a store of {} entries", truncate(&String::from_utf8_lossy(b), 200), s.len())),
        (Ok(j), Err(e)) => {
            if has_reserved(&j) {
                return Ok(());
            }
            violation(format!("{:?} is JSON but is refused: {e}", truncate(&j.to_string(), 300)))
        }
        (Ok(j), Ok(s)) => {
            if has_reserved(&j) {
                return Ok(());
            }
            doc_same(&j, &s.to_json(true).ok_or_else(|| v_err("an imported text cannot be exported"))?, "text")
        }
    }
}
fn has_reserved(j: &J) -> bool {
    match j {
        J::Object(o) => o.contains_key("souris_type") || o.values().any(has_reserved),
        J::Array(a) => a.iter().any(has_reserved),
        _ => false,
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Unit,
    New(i32),
    Tup(u8, String),
    Named { a: Option<i64>, b: Vec<bool> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    id: u64,
    neg: i64,
    tiny: i8,
    small: u16,
    flag: bool,
    f: f64,
    g: f32,
    ch: char,
    name: String,
    unit: (),
    opt: Option<u32>,
    kind: Kind,
    tup: (bool, i16, String),
    list: Vec<Rec>,
    map: BTreeMap<String, Vec<u8>>,
    kinds: BTreeMap<String, Kind>,
    bits: [u8; 3],
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Wrapped(Vec<Rec>);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Typed {
    R(Rec),
    W(Wrapped),
    S(String),
    U(u64),
    I(i64),
    F(f64),
    B(bool),
    O(Option<i32>),
    K(Kind),
    N(Vec<u64>),
    M(BTreeMap<String, i64>),
    T((u8, String, Option<bool>)),
}
fn finite() -> BoxedStrategy<f64> {
    f64_finite_bits().prop_map(f64::from_bits).boxed()
}
fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        Just(Kind::Unit),
        any::<i32>().prop_map(Kind::New),
        (any::<u8>(), any::<String>()).prop_map(|(a, b)| Kind::Tup(a, b)),
        (any::<Option<i64>>(), vec(any::<bool>(), 0..4)).prop_map(|(a, b)| Kind::Named { a, b }),
    ]
    .boxed()
}
fn rec(t: Tier) -> BoxedStrategy<Rec> {
    let flat = (
        (any::<u64>(), any::<i64>(), any::<i8>(), any::<u16>(), any::<bool>(), finite(), f32_bits(), any::<char>(), text(t)),
        (any::<Option<u32>>(), kind(), any::<(bool, i16, String)>(), btree_map(key(), vec(any::<u8>(), 0..6), 0..4), btree_map(key(), kind(), 0..3), any::<[u8; 3]>()),
    )
        .prop_map(|((id, neg, tiny, small, flag, f, g, ch, name), (opt, kind, tup, map, kinds, bits))| Rec {
            id,
            neg,
            tiny,
            small,
            flag,
            f,
            g: if f32::from_bits(g).is_finite() { f32::from_bits(g) } else { 1.5 },
            ch,
            name,
            unit: (),
            opt,
            kind,
            tup,
            list: vec![],
            map,
            kinds,
            bits,
        });
    (flat.clone(), vec(flat, 0..3)).prop_map(|(mut r, l)| {
        r.list = l;
        r
    })
    .boxed()
}
fn typed(t: Tier) -> BoxedStrategy<Typed> {
    prop_oneof![
        4 => rec(t).prop_map(Typed::R),
        2 => vec(rec(t), 0..3).prop_map(|v| Typed::W(Wrapped(v))),
        1 => text(t).prop_map(Typed::S),
        1 => any::<u64>().prop_map(Typed::U),
        1 => any::<i64>().prop_map(Typed::I),
        1 => finite().prop_map(Typed::F),
        1 => any::<bool>().prop_map(Typed::B),
        1 => any::<Option<i32>>().prop_map(Typed::O),
        1 => kind().prop_map(Typed::K),
        1 => vec(any::<u64>(), 0..20).prop_map(Typed::N),
        2 => btree_map(key(), any::<i64>(), 0..6).prop_map(|mut m| { if m.len() == 1 { m.remove("JSON"); } Typed::M(m) }),
        1 => any::<(u8, String, Option<bool>)>().prop_map(Typed::T),
    ]
    .boxed()
}
fn c14_typed(t: &Typed, case: &mut Case) -> TestResult {
    fn go<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(t: &T) -> TestResult {
        let b = Store::to_bytes(t).map_err(|e| v_err(format!("to_bytes refuses {}: {e}", truncate(&format!("{t:?}"), 300))))?;
        let back: T = Store::from_bytes(&b).map_err(|e| v_err(format!("from_bytes refuses own bytes of {}: {e}", truncate(&format!("{t:?}"), 300))))?;
        ensure!(back == *t, "{} came back as {}", truncate(&format!("{t:?}"), 600), truncate(&format!("{back:?}"), 600));
        Ok(())
    }
    match t {
        Typed::R(x) => {
            case.label("struct");
            case.nontrivial();
            go(x)
        }
        Typed::W(x) => {
            case.label("list_of_structs");
            case.nontrivial();
            go(x)
        }
        Typed::S(x) => go(x),
        Typed::U(x) => go(x),
        Typed::I(x) => go(x),
        Typed::F(x) => go(x),
        Typed::B(x) => go(x),
        Typed::O(x) => go(x),
        Typed::K(x) => go(x),
        Typed::N(x) => go(x),
        Typed::M(x) => {
            case.nontrivial();
            go(x)
        }
        Typed::T(x) => go(x),
    }
}
pub fn c14p() -> Property {
    Property {
        id: "C14",
        rule: "JSON documents of any top-level shape nested up to 5 levels with extreme numbers and texts: imported and exported directly, after storage, from text and through the typed functions; Rust records, enums and containers through to_bytes/from_bytes; arbitrary and damaged JSON text; non-trivial: more than two nodes, a record, or more than two bytes",
        level: "exploration",
        assumptions: &["the key souris_type is reserved and not used by documents", "float text is compared with what the JSON parser itself reads"],
        checks: vec![
            Pbt::boxed("json_document", 200_000, 1_500_000, |t| (mj_with(t, f64_finite_bits()), any::<bool>()), c14_doc),
            Pbt::boxed("typed", 60_000, 300_000, typed, c14_typed),
            Pbt::boxed(
                "json_text",
                60_000,
                1_500_000,
                |t| {
                    let doc = mj_with(t, f64_finite_bits()).prop_map(|m| serde_json::to_vec(&m.build()).unwrap_or_default());
                    prop_oneof![
                        1 => doc.clone(),
                        3 => (doc, vec((any::<prop::sample::Index>(), prop_oneof![any::<u8>(), prop::sample::select(b"{}[]\",:0-.eE \\un".to_vec())], 0..3_u8), 1..3)).prop_map(|(mut b, es)| {
                            for (ix, x, how) in es {
                                if b.is_empty() { break; }
                                let i = ix.index(b.len());
                                match how { 0 => b[i] = x, 1 => { b.remove(i); } _ => b.insert(i, x) }
                            }
                            b
                        }),
                        1 => "[\\[\\]{}\",:0-9eE.+a-z \\-]{0,30}".prop_map(String::into_bytes),
                    ]
                },
                c14_text,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C15
/// The JSON that a value is exported as, or `None` if JSON cannot hold it. Timestamps are
/// written as a marker, as only their meaning is specified.
fn expected_json(v: &MV, types: bool) -> Option<J> {
    let num = |f: f64| serde_json::Number::from_f64(f).map(J::Number);
    let int = |i: &MInt| -> Option<J> {
        if i.n.neg {
            i.n.as_i128().and_then(|x| i64::try_from(x).ok()).map(J::from)
        } else {
            u64::try_from(i.n.mag).ok().map(J::from)
        }
    };
    let tagged = |n: u8, fields: Vec<(&str, J)>| {
        let mut o = serde_json::Map::new();
        if types {
            o.insert("souris_type".into(), J::from(n));
        }
        for (k, v) in fields {
            o.insert(k.into(), v);
        }
        J::Object(o)
    };
    Some(match v {
        MV::Ch(c) => J::String(c.to_string()),
        MV::Str(s) => J::String(s.clone()),
        MV::Bool(b) => J::Bool(*b),
        MV::Null => J::Null,
        MV::Int(i) => int(i)?,
        MV::F32(b) => num(f64::from(f32::from_bits(*b)))?,
        MV::F64(b) => num(f64::from_bits(*b))?,
        MV::Json(j) => j.build(),
        MV::Arr(a) => J::Array(a.iter().map(|v| expected_json(v, types)).collect::<Option<_>>()?),
        MV::Map(m) => J::Object(m.iter().map(|(k, v)| expected_json(v, types).map(|v| (k.clone(), v))).collect::<Option<_>>()?),
        MV::Cart(a, b) => tagged(5, vec![("real", int(a)?), ("imaginary", int(b)?)]),
        MV::Polar(a, b) => tagged(5, vec![("modulus", num(f64::from_bits(*a))?), ("argument", num(f64::from_bits(*b))?)]),
        MV::Bin(b) => tagged(2, vec![("bytes", J::Array(b.bytes().into_iter().map(J::from).collect()))]),
        MV::Tz(i) => tagged(12, vec![("timezone", J::String(TZ_VARIANTS[*i as usize % TZ_VARIANTS.len()].name().to_string()))]),
        MV::Ts(_) => tagged(6, vec![("timestamp", J::Null)]),
        MV::V4(o) => {
            let a = J::Array(o.iter().map(|x| J::from(*x)).collect());
            if types { tagged(13, vec![("octets", a)]) } else { a }
        }
        MV::V6(s) => {
            let a = J::Array(s.iter().map(|x| J::from(*x)).collect());
            if types { tagged(14, vec![("octets", a)]) } else { a }
        }
        MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => expected_json(&v.expand(), types)?,
    })
}
/// Replaces the text of a timestamp with the marker, checking what the text says.
fn mask_timestamps(v: &MV, got: &mut J, types: bool) -> Result<(), String> {
    match (v, got) {
        (MV::Ts(t), J::Object(o)) => {
            let Some(J::String(s)) = o.get("timestamp") else { return Err("a timestamp is not exported as text".into()) };
            let read: NaiveDateTime = s.replacen(' ', "T", 1).parse().map_err(|e| format!("timestamp {t:?} is exported as {s:?}, which is not a time: {e}"))?;
            same_ts(t, &read, "timestamp")?;
            o.insert("timestamp".into(), J::Null);
            Ok(())
        }
        (MV::Arr(a), J::Array(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(v, j)| mask_timestamps(v, j, types)),
        (MV::Map(m), J::Object(o)) => m.iter().try_for_each(|(k, v)| o.get_mut(k).map_or(Ok(()), |j| mask_timestamps(v, j, types))),
        _ => Ok(()),
    }
}
/// What a typed export comes back as: characters and single floats widen, JSON becomes structure.
fn image(v: &MV) -> MV {
    match v {
        MV::Ch(c) => MV::Str(c.to_string()),
        MV::F32(b) => MV::F64(f64::from(f32::from_bits(*b)).to_bits()),
        MV::Json(j) => image_json(j),
        MV::Arr(a) => MV::Arr(a.iter().map(image).collect()),
        MV::Map(m) => MV::Map(m.iter().map(|(k, v)| (k.clone(), image(v))).collect()),
        o => o.clone(),
    }
}
fn image_json(j: &MJ) -> MV {
    match j {
        MJ::Null => MV::Null,
        MJ::Bool(b) => MV::Bool(*b),
        MJ::U(u) => MV::Int(MInt { w: 3, n: Num::u((*u).into()) }),
        MJ::I(i) => MV::Int(MInt { w: 9, n: Num::i((*i).into()) }),
        MJ::F(b) => MV::F64(*b),
        MJ::S(s) => MV::Str(s.clone()),
        MJ::A(a) => MV::Arr(a.iter().map(image_json).collect()),
        MJ::O(o) => MV::Map(o.iter().map(|(k, v)| (k.clone(), image_json(v))).collect()),
    }
}
fn plain_leap(v: MV) -> MV {
    // chrono's text form can only say "second 60"
    match v {
        MV::Ts(t) if t.ns >= 1_000_000_000 && t.secs % 60 != 59 => MV::Ts(MTs { ns: t.ns - 1_000_000_000, ..t }),
        o => o,
    }
}
fn jsonable_leaf(t: Tier) -> BoxedStrategy<MV> {
    prop_oneof![
        5 => leaf(t).prop_map(plain_leap).prop_map(|v| match v {
            // mostly values that JSON can hold
            MV::Int(i) => MV::Int(small_int(i)),
            MV::Cart(a, b) => MV::Cart(small_int(a), small_int(b)),
            MV::F64(b) if !f64::from_bits(b).is_finite() => MV::F64(1.5_f64.to_bits()),
            MV::F32(b) if !f32::from_bits(b).is_finite() => MV::F32(1.5_f32.to_bits()),
            MV::Polar(a, b) if !f64::from_bits(a).is_finite() || !f64::from_bits(b).is_finite() => MV::Polar(2.5_f64.to_bits(), 1.5_f64.to_bits()),
            o => o,
        }),
    ]
    .boxed()
}
fn small_int(i: MInt) -> MInt {
    if in_width(i.n, "u64") || in_width(i.n, "i64") {
        i
    } else {
        let n = Num { neg: i.n.neg && (i.n.mag as u64 >> 1) != 0, mag: u128::from(i.n.mag as u64 >> 1) };
        MInt { w: 12, n }
    }
}
fn c15(i: &(MV, bool), case: &mut Case) -> TestResult {
    let v = i.0.expand();
    let types = i.1;
    v.labels(case);
    let real = v.build();
    let want = expected_json(&v, types);
    let got = real.convert_to_json(types);
    case.label(if want.is_some() { "representable" } else { "unrepresentable" });
    if v.is_container() || !matches!(v, MV::Null | MV::Bool(_)) {
        case.nontrivial();
    }
    let Some(want) = want else {
        return match got {
            None => Ok(()),
            Some(g) => violation(format!("a value that JSON cannot hold is exported as {}", truncate(&g.to_string(), 300))),
        };
    };
    let got = got.ok_or_else(|| v_err("a value that JSON can hold is not exported"))?;
    let mut masked = got.clone();
    mask_timestamps(&v, &mut masked, types).map_err(Fail::Violation)?;
    json_same(&want, &masked, "export").map_err(Fail::Violation)?;
    if types {
        let back = Value::convert_from_json(got).map_err(|e| v_err(format!("a typed export is not imported: {e}")))?;
        same(&image(&v), &back, "imported", &mut Tolerance::default()).map_err(Fail::Violation)?;
    }
    // the same inside a store
    let key = if v.any(&|x| matches!(x, MV::Bool(true))) { "k" } else { "a key" };
    let s = Store::new([(key.to_string(), v.build())]);
    let out = s.to_json(types).ok_or_else(|| v_err("a store of exportable values is not exported"))?;
    let mut inner = out.get(key).cloned().ok_or_else(|| v_err("a store's key is lost in its export"))?;
    mask_timestamps(&v, &mut inner, types).map_err(Fail::Violation)?;
    json_same(&want, &inner, "store export").map_err(Fail::Violation)?;
    ensure!(out.as_object().is_some_and(|o| o.len() == 1), "a store's export has other keys");
    if types {
        let s = Store::from_json(out).map_err(|e| v_err(format!("a typed store export is not imported: {e}")))?;
        ensure!(s.len() == 1, "{} entries after import", s.len());
        let b = s.get(key).ok_or_else(|| v_err("a store's key is lost in import"))?;
        same(&image(&v), b, "store imported", &mut Tolerance::default()).map_err(Fail::Violation)?;
    }
    Ok(())
}
/// Hand-made objects with a type number: refused, or understood in a way that is stable.
fn c15_tagged(i: &(u16, Vec<(String, MJ)>), case: &mut Case) -> TestResult {
    let (n, fields) = i;
    let mut o = serde_json::Map::new();
    for (k, v) in fields {
        o.insert(k.clone(), v.build());
    }
    let plain = o.clone();
    o.insert("souris_type".into(), J::from(*n));
    let doc = J::Object(o);
    case.nontrivial();
    let nested_tags = plain.values().any(has_reserved);
    match Value::convert_from_json(doc.clone()) {
        Err(_) => {
            case.label("refused");
            ensure!(*n < 16 || nested_tags, "type number {n} means nothing, but the object is refused");
            Ok(())
        }
        Ok(v) => {
            let ty = ty_of(&model_of(&v).map_err(Fail::Violation)?);
            if *n >= 16 {
                case.label("plain_object");
                ensure!(ty == ValueTy::Map, "an object with type number {n} is imported as {ty:?}");
                return Ok(());
            }
            case.label("understood");
            ensure!(u16::from(u8::from(ty)) == *n, "an object with type number {n} is imported as {ty:?}");
            ensure!([5, 6, 12, 2, 13, 14].contains(n), "type {n} has a typed form in JSON");
            let out = v.clone().convert_to_json(true).ok_or_else(|| v_err("an imported object cannot be exported"))?;
            for (k, x) in out.as_object().into_iter().flatten() {
                if k != "timestamp" {
                    let y = doc.get(k).ok_or_else(|| v_err(format!("field {k} appears from nowhere")))?;
                    let close = match (x.as_f64(), y.as_f64()) {
                        (Some(a), Some(b)) => a == b,
                        _ => json_same(x, y, "").is_ok(),
                    };
                    ensure!(close, "field {k}: {y} was understood as {x}");
                }
            }
            let again = Value::convert_from_json(out).map_err(|e| v_err(format!("a re-export is not imported: {e}")))?;
            ensure!(again == v, "{v:?} is {again:?} after another export and import");
            Ok(())
        }
    }
}
fn tagged_fields(t: Tier) -> BoxedStrategy<(u16, Vec<(String, MJ)>)> {
    let nums = || prop_oneof![4 => (0..256_u64).prop_map(MJ::U), 1 => (0..70_000_u64).prop_map(MJ::U), 1 => any::<u64>().prop_map(MJ::U), 1 => (i64::MIN..0).prop_map(MJ::I), 1 => f64_finite_bits().prop_map(MJ::F)];
    let bytes = || prop_oneof![3 => vec((0..256_u64).prop_map(MJ::U), 4..=4).prop_map(MJ::A), 3 => vec((0..65_536_u64).prop_map(MJ::U), 8..=8).prop_map(MJ::A), 3 => vec(nums(), 0..10).prop_map(MJ::A), 1 => Just(MJ::A(vec![]))];
    let when = prop_oneof![
        mts().prop_map(|t| t.build().map_or(String::new(), |b| b.to_string())),
        mts().prop_map(|t| t.build().map_or(String::new(), |b| format!("{b:?}"))),
        "[0-9]{4}-[0-9]{2}-[0-9]{2}[ T][0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]{0,12})?".prop_map(String::from),
        any::<String>(),
    ];
    let zone = prop_oneof![3 => (0..TZ_VARIANTS.len()).prop_map(|i| TZ_VARIANTS[i].name().to_string()), 1 => "[A-Z][a-z]{2,6}/[A-Z][a-z]{2,6}".prop_map(String::from), 1 => any::<String>()];
    let good = prop_oneof![
        (nums(), nums()).prop_map(|(a, b)| (5_u16, vec![("real".to_string(), a), ("imaginary".to_string(), b)])),
        (nums(), nums()).prop_map(|(a, b)| (5, vec![("modulus".to_string(), a), ("argument".to_string(), b)])),
        when.prop_map(|s| (6, vec![("timestamp".to_string(), MJ::S(s))])),
        zone.prop_map(|s| (12, vec![("timezone".to_string(), MJ::S(s))])),
        bytes().prop_map(|b| (2, vec![("bytes".to_string(), b)])),
        bytes().prop_map(|b| (13, vec![("octets".to_string(), b)])),
        bytes().prop_map(|b| (14, vec![("octets".to_string(), b)])),
    ];
    let name = prop::sample::select(vec!["real", "imaginary", "modulus", "argument", "timestamp", "timezone", "bytes", "octets", "x"]).prop_map(String::from);
    prop_oneof![
        6 => good.clone(),
        2 => (good.clone(), name.clone(), mj_with(t, f64_finite_bits())).prop_map(|((n, mut f), k, v)| { f.push((k, v)); (n, f) }),
        2 => (good.clone(), prop_oneof![0..20_u16, any::<u16>()]).prop_map(|((_, f), n)| (n, f)),
        1 => good.prop_map(|(n, mut f)| { f.pop(); (n, f) }),
        1 => (0..16_u16, vec((name, mj_with(t, f64_finite_bits())), 0..3)),
    ]
    .boxed()
}
pub fn c15p() -> Property {
    Property {
        id: "C15",
        rule: "values of every kind nested up to 4 levels, mostly representable in JSON, exported with and without type information against an independent table, and imported again; objects with arbitrary type numbers and fields; non-trivial: anything but null and booleans",
        level: "exploration",
        assumptions: &["leap seconds only at second 59: chrono's text form has no other", "the key souris_type is reserved"],
        checks: vec![
            Pbt::boxed("export_import", 90_000, 700_000, |t| (prop_oneof![3 => mv_from(jsonable_leaf(t)), 1 => mv_from(leaf(t).prop_map(plain_leap).boxed())], any::<bool>()), c15),
            Pbt::boxed("export_import_leaf", 200_000, 1_500_000, |t| (prop_oneof![jsonable_leaf(t), leaf(t).prop_map(plain_leap)], any::<bool>()), c15),
            Pbt::boxed("typed_objects", 400_000, 3_000_000, tagged_fields, c15_tagged),
        ],
    }
}

// ---------------------------------------------------------------- C16
fn eq_mv(a: &MV, b: &MV) -> bool {
    let f = |x: u64, y: u64| f64::from_bits(x) == f64::from_bits(y);
    match (a, b) {
        (MV::Int(x), MV::Int(y)) => x.n == y.n,
        (MV::Cart(x, y), MV::Cart(p, q)) => x.n == p.n && y.n == q.n,
        (MV::Polar(x, y), MV::Polar(p, q)) => f(*x, *p) && f(*y, *q),
        (MV::F32(x), MV::F32(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        (MV::F64(x), MV::F64(y)) => f(*x, *y),
        (MV::Bin(x), MV::Bin(y)) => x.bytes() == y.bytes(),
        (MV::Json(x), MV::Json(y)) => eq_mj(x, y),
        (MV::Arr(x), MV::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_mv(p, q)),
        (MV::Map(x), MV::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| eq_mv(v, w))),
        (MV::Tz(x), MV::Tz(y)) => *x as usize % TZ_VARIANTS.len() == *y as usize % TZ_VARIANTS.len(),
        _ => a == b,
    }
}
fn eq_mj(a: &MJ, b: &MJ) -> bool {
    match (a, b) {
        (MJ::F(x), MJ::F(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (MJ::A(x), MJ::A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_mj(p, q)),
        (MJ::O(x), MJ::O(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| eq_mj(v, w))),
        _ => a == b,
    }
}
fn no_nan(v: MV) -> MV {
    match v {
        MV::F32(b) if f32::from_bits(b).is_nan() => MV::F32(0),
        MV::F64(b) if f64::from_bits(b).is_nan() => MV::F64(1 << 63),
        MV::Polar(a, b) => {
            let f = |x: u64| if f64::from_bits(x).is_nan() { 0 } else { x };
            MV::Polar(f(a), f(b))
        }
        o => o,
    }
}
/// How a copy is made: numbers from other widths, zeros with the other sign, maps filled in
/// another order, everything through bytes — or one leaf changed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Copy_ {
    widths: Vec<u8>,
    flip_zeros: bool,
    reverse_maps: bool,
    spare: u8,
    through_bytes: bool,
    swap: Option<(u16, MV)>,
}
struct Varier<'a> {
    c: &'a Copy_,
    n: usize,
    leaf: usize,
}
impl Varier<'_> {
    fn int(&mut self, i: &MInt) -> MInt {
        let fits: Vec<u8> = (0..12_u8).filter(|w| in_width(i.n, WIDTHS[*w as usize])).chain([12]).collect();
        self.n += 1;
        let k = self.c.widths.get(self.n % self.c.widths.len().max(1)).copied().unwrap_or(0);
        MInt { w: fits[k as usize % fits.len()], n: i.n }
    }
    fn zero(&self, b: u64) -> u64 {
        if self.c.flip_zeros && b << 1 == 0 { b ^ (1 << 63) } else { b }
    }
    fn json(&self, j: &MJ) -> MJ {
        match j {
            MJ::F(b) => MJ::F(self.zero(*b)),
            MJ::A(a) => MJ::A(a.iter().map(|x| self.json(x)).collect()),
            MJ::O(o) => MJ::O(o.iter().map(|(k, v)| (k.clone(), self.json(v))).collect()),
            o => o.clone(),
        }
    }
    fn go(&mut self, v: &MV) -> MV {
        let at = self.leaf;
        self.leaf += 1;
        if let Some((n, w)) = &self.c.swap {
            if *n as usize == at {
                return w.expand();
            }
        }
        match v {
            MV::Int(i) => MV::Int(self.int(i)),
            MV::Cart(a, b) => MV::Cart(self.int(a), self.int(b)),
            MV::F64(b) => MV::F64(self.zero(*b)),
            MV::F32(b) => MV::F32(if self.c.flip_zeros && b << 1 == 0 { b ^ (1 << 31) } else { *b }),
            MV::Polar(a, b) => MV::Polar(self.zero(*a), self.zero(*b)),
            MV::Json(j) => MV::Json(self.json(j)),
            MV::Arr(a) => MV::Arr(a.iter().map(|x| self.go(x)).collect()),
            MV::Map(m) => MV::Map(m.iter().map(|(k, x)| (k.clone(), self.go(x))).collect()),
            o => o.clone(),
        }
    }
}
/// Builds with maps filled in a chosen order and with a chosen spare capacity.
fn build_ordered(v: &MV, reverse: bool, spare: u8) -> Value {
    match v {
        MV::Arr(a) => Value::Array(a.iter().map(|x| build_ordered(x, reverse, spare)).collect()),
        MV::Map(m) => {
            let mut out = hashbrown::HashMap::with_capacity(usize::from(spare) * 3);
            let mut e: Vec<_> = m.iter().collect();
            if reverse {
                e.reverse();
            }
            for i in 0..spare {
                out.insert(format!("spare{i}"), Value::Null(()));
            }
            for (k, x) in e {
                out.insert(k.clone(), build_ordered(x, reverse, spare));
            }
            for i in 0..spare {
                if !m.contains_key(&format!("spare{i}")) {
                    out.remove(&format!("spare{i}"));
                }
            }
            Value::Map(out)
        }
        o => o.build(),
    }
}
/// Where to change something and how, read off one by one (zeros when used up).
struct Picks<'a>(std::slice::Iter<'a, u16>);
impl Picks<'_> {
    fn of(&mut self, n: usize) -> usize {
        usize::from(self.0.next().copied().unwrap_or(0)) % n.max(1)
    }
    /// The first, the last or any place of `n`.
    fn place(&mut self, n: usize) -> usize {
        match self.of(4) {
            0 => 0,
            1 => n.saturating_sub(1),
            _ => (self.of(1 << 16) * 65_537 + self.of(1 << 16)) % n.max(1),
        }
    }
    /// One element changed, taken out, put in or exchanged with its neighbour.
    fn list<T: Clone>(&mut self, v: &[T], change: impl FnOnce(&mut Self, &T) -> T, fresh: T) -> Vec<T> {
        let mut v = v.to_vec();
        let (k, what) = (self.place(v.len()), self.of(8));
        match what {
            _ if v.is_empty() => v.push(fresh),
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, fresh),
            2 => v.push(fresh),
            3 => v.insert(k, v[k].clone()),
            4 if k > 0 => v.swap(k, k - 1),
            _ => v[k] = change(self, &v[k]),
        }
        v
    }
    fn chr(&mut self, c: char) -> char {
        let near = |d: i32| char::from_u32((c as u32).wrapping_add_signed(d)).unwrap_or('x');
        match self.of(6) {
            0 => near(1),
            1 => near(-1),
            2 if c.is_uppercase() => c.to_lowercase().next().unwrap_or('x'),
            2 => c.to_uppercase().next().unwrap_or('X'),
            3 => near(0x100),
            4 => near(0x1_0000),
            _ => near(0x20),
        }
    }
    fn text(&mut self, s: &str) -> String {
        let fresh = [' ', '\0', 'a', '\n', '\u{301}'][self.of(5)];
        let v: Vec<char> = s.chars().collect();
        self.list(&v, |p, c| p.chr(*c), fresh).into_iter().collect()
    }
    fn int(&mut self, i: &MInt) -> MInt {
        let n = i.n;
        let (neg, mag) = match self.of(6) {
            0 => (n.neg, n.mag.wrapping_add(1)),
            1 => (n.neg, n.mag.wrapping_sub(1)),
            2 => (!n.neg, n.mag),
            3 => (n.neg, n.mag ^ (1 << self.of(128))),
            4 => (n.neg, n.mag.rotate_left(8)),
            _ => (n.neg, n.mag.swap_bytes()),
        };
        MInt { w: 12, n: Num { neg: neg && mag != 0 && mag <= 1 << 127, mag } }
    }
    fn json(&mut self, j: &MJ) -> MJ {
        match j {
            MJ::Null => MJ::Bool(false),
            MJ::Bool(b) => MJ::Bool(!b),
            MJ::U(u) => match self.of(3) {
                0 => MJ::U(u.wrapping_add(1)),
                1 => MJ::F((*u as f64).to_bits()),
                _ => MJ::S(u.to_string()),
            },
            MJ::I(i) => match self.of(3) {
                0 if *i < -1 => MJ::I(i + 1),
                1 => MJ::F((*i as f64).to_bits()),
                _ => MJ::U(i.unsigned_abs()),
            },
            MJ::F(b) => MJ::F(if f64::from_bits(b ^ 1).is_finite() { b ^ 1 } else { 0 }),
            MJ::S(s) => MJ::S(self.text(s)),
            MJ::A(a) => MJ::A(self.list(a, |p, x| p.json(x), MJ::Null)),
            MJ::O(o) => MJ::O(self.map(o, |p, x| p.json(x), MJ::Null)),
        }
    }
    fn map<T: Clone>(&mut self, m: &BTreeMap<String, T>, change: impl FnOnce(&mut Self, &T) -> T, fresh: T) -> BTreeMap<String, T> {
        let mut m = m.clone();
        let at = self.place(m.len());
        let Some((k, v)) = m.iter().nth(at).map(|(k, v)| (k.clone(), v.clone())) else {
            m.insert(String::new(), fresh);
            return m;
        };
        match self.of(7) {
            0 => {
                m.remove(&k);
            }
            1 => {
                m.insert(self.text(&k), fresh);
            }
            2 => {
                m.remove(&k);
                m.insert(self.text(&k), v);
            }
            3 => {
                // two keys exchange what is under them
                let other = self.place(m.len());
                if let Some((k2, v2)) = m.iter().nth(other).map(|(k, v)| (k.clone(), v.clone())) {
                    m.insert(k, v2);
                    m.insert(k2, v);
                }
            }
            _ => {
                let new = change(self, &v);
                m.insert(k, new);
            }
        }
        m
    }
    fn bits(&mut self, b: u64) -> u64 {
        b ^ 1 << [0, 1, 29, 51, 52, 62, 63][self.of(7)]
    }
    /// The value with one small thing about it changed.
    fn value(&mut self, v: &MV) -> MV {
        match v {
            MV::Ch(c) => MV::Ch(self.chr(*c)),
            MV::Str(s) => MV::Str(self.text(s)),
            MV::Bin(b) => MV::Bin(MBin::Bytes(self.list(&b.bytes(), |p, x| x ^ 1 << p.of(8), 0))),
            MV::Bool(b) => MV::Bool(!b),
            MV::Int(i) => MV::Int(self.int(i)),
            MV::Cart(a, b) => match self.of(3) {
                0 => MV::Cart(self.int(a), *b),
                1 => MV::Cart(*a, self.int(b)),
                _ => MV::Cart(*b, *a),
            },
            MV::Polar(a, b) => match self.of(3) {
                0 => MV::Polar(self.bits(*a), *b),
                1 => MV::Polar(*a, self.bits(*b)),
                _ => MV::Polar(*b, *a),
            },
            MV::Ts(t) => {
                let mut t = t.clone();
                match self.of(6) {
                    0 => t.ns = if t.ns % 1_000_000_000 == 0 { t.ns + 1 } else { t.ns - 1 },
                    1 => t.ns = if t.ns >= 1_000_000_000 { t.ns - 1_000_000_000 } else { t.ns + 1_000_000_000 },
                    2 => t.secs = (t.secs + 60) % 86_400,
                    3 => t.secs = if t.secs == 0 { 1 } else { t.secs - 1 },
                    4 => t.ord = if t.ord == 1 { 2 } else { t.ord - 1 },
                    _ => t.y = if t.y > 0 { t.y - 1 } else { t.y + 1 },
                }
                MV::Ts(t)
            }
            MV::Json(j) => MV::Json(self.json(j)),
            MV::Null => MV::Arr(vec![]),
            MV::F32(b) => MV::F32(b ^ 1 << [0, 1, 22, 23, 30, 31][self.of(6)]),
            MV::F64(b) => MV::F64(self.bits(*b)),
            MV::Arr(a) => MV::Arr(self.list(a, Self::value, MV::Null)),
            MV::Map(m) => MV::Map(self.map(m, Self::value, MV::Null)),
            MV::Tz(i) => MV::Tz((usize::from(*i) + 1 + self.of(3)) as u16 % TZ_VARIANTS.len() as u16),
            MV::V4(b) => {
                let mut b = *b;
                b[self.of(4)] ^= 1 << self.of(8);
                MV::V4(b)
            }
            MV::V6(b) => {
                let mut b = *b;
                b[self.of(8)] ^= 1 << self.of(16);
                MV::V6(b)
            }
            MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => self.value(&v.expand()),
        }
    }
}
fn no_nan_inside(v: MV) -> MV {
    match v {
        MV::Arr(a) => MV::Arr(a.into_iter().map(no_nan_inside).collect()),
        MV::Map(m) => MV::Map(m.into_iter().map(|(k, v)| (k, no_nan_inside(v))).collect()),
        o => no_nan(o),
    }
}
/// Two values that differ in one small place, wherever in them.
fn c16_near((v, how, through_bytes): &(MV, Vec<u16>, bool), case: &mut Case) -> TestResult {
    let v = no_nan_inside(v.expand());
    let mut w = Picks(how.iter()).value(&v);
    w = no_nan_inside(w);
    // one level more than may be written
    let through_bytes = *through_bytes && w.depth() < 100;
    c16_pair(&v, &w, &Copy_ { widths: vec![0], flip_zeros: false, reverse_maps: false, spare: 0, through_bytes, swap: None }, case)?;
    if v.is_container() || v.weight() > 20 {
        case.nontrivial();
    }
    Ok(())
}
fn c16(i: &(MV, Copy_), case: &mut Case) -> TestResult {
    let a = i.0.expand();
    let mut va = Varier { c: &i.1, n: 0, leaf: 0 };
    let b = va.go(&a);
    if a.is_container() || i.1.swap.is_some() {
        case.nontrivial();
    }
    c16_pair(&a, &b, &i.1, case)
}
fn c16_pair(a: &MV, b: &MV, how: &Copy_, case: &mut Case) -> TestResult {
    a.labels(case);
    let ra = a.build();
    let mut rb = build_ordered(b, how.reverse_maps, how.spare % 20);
    let lossy = b.any(&|x| matches!(x, MV::Json(_)));
    if how.through_bytes && !lossy {
        let bytes = rb.ser(None);
        rb = Value::deser(&mut sourisdb::utilities::cursor::Cursor::new(&bytes), None).map_err(|e| v_err(format!("own bytes are refused: {e}")))?;
        case.label("through_bytes");
    }
    let want = eq_mv(a, b);
    case.label(if want { "equal" } else { "different" });
    let show = || truncate(&format!("{a:?} and {b:?}"), 700);
    ensure!((ra == rb) == want, "== says {}, the contents say {want}: {}", ra == rb, show());
    ensure!((rb == ra) == want, "== is not symmetric: {}", show());
    #[allow(clippy::eq_op)]
    {
        ensure!(ra == ra && rb == rb, "a value is not equal to itself: {}", show());
    }
    let c = ra.clone();
    ensure!(c == ra && hash_of(&c) == hash_of(&ra), "a clone differs: {}", show());
    if want {
        ensure!(hash_of(&ra) == hash_of(&rb), "equal values hash differently: {}", show());
    }
    let mut set = HashSet::new();
    set.insert(ra.clone());
    ensure!(set.contains(&rb) == want, "a set that holds one says {} about the other: {}", set.contains(&rb), show());
    set.insert(rb.clone());
    ensure!(set.len() == if want { 1 } else { 2 }, "a set holds {} of the two: {}", set.len(), show());
    let mut map: HashMap<Value, u8> = HashMap::new();
    map.insert(ra.clone(), 1);
    map.insert(rb.clone(), 2);
    ensure!(map.get(&ra) == Some(if want { &2 } else { &1 }), "a map keyed by one gives {:?}: {}", map.get(&ra), show());
    let (sa, sb) = (Store::new([("k".to_string(), ra)]), Store::new([("k".to_string(), rb)]));
    ensure!((sa == sb) == want, "stores of the two: == says {}: {}", sa == sb, show());
    Ok(())
}
pub fn c16p() -> Property {
    fn copy(t: Tier) -> BoxedStrategy<Copy_> {
        (
            vec(any::<u8>(), 1..5),
            any::<bool>(),
            any::<bool>(),
            prop_oneof![2 => Just(0_u8), 1 => any::<u8>()],
            prop::bool::weighted(0.3),
            prop_oneof![2 => Just(None), 1 => (0..12_u16, leaf(t).prop_map(no_nan)).prop_map(Some)],
        )
            .prop_map(|(widths, flip_zeros, reverse_maps, spare, through_bytes, swap)| Copy_ { widths, flip_zeros, reverse_maps, spare, through_bytes, swap })
            .boxed()
    }
    Property {
        id: "C16",
        rule: "a value and a copy made differently (numbers from other widths, the other zero, maps filled in another order or with spare room, read back from bytes), one copy in three with one node replaced, and pairs, large ones too, that differ in one bit, character, element, key or number anywhere inside: equality, symmetry, hash, set and map behaviour against a structural comparison; non-trivial: a container, a replaced node or a longer value",
        level: "exploration",
        assumptions: &["values without NaN: NaN is not equal to itself"],
        checks: vec![
            Pbt::boxed("equal_and_hash", 250_000, 1_500_000, |t| (mv_from(leaf(t).prop_map(no_nan).boxed()), copy(t)), c16),
            Pbt::boxed("near_copy", 150_000, 1_000_000, |t| (prop_oneof![mv(t), leaf(t)], vec(any::<u16>(), 4..40), prop::bool::weighted(0.3)), c16_near),
            Pbt::boxed("large_near_copy", 600, 12_000, |_| (big_mv(), vec(any::<u16>(), 4..40), prop::bool::weighted(0.1)), c16_near),
            Pbt::boxed("equal_and_hash_leaf", 600_000, 3_000_000, |t| (leaf(t).prop_map(no_nan), copy(t)), c16),
            Pbt::boxed(
                "same_kind_pair",
                120_000,
                3_000_000,
                |t| {
                    let near = |t: Tier| prop_oneof![
                        (num(), num()).prop_map(|(a, b)| (MV::Int(MInt { w: 12, n: a }), MV::Int(MInt { w: 12, n: b }))),
                        (mint(), 0..16_u32, any::<u8>()).prop_map(|(a, k, x)| { let mag = a.n.mag ^ (u128::from(x) << (8 * k)); let neg = a.n.neg && mag != 0 && mag <= 1 << 127; (MV::Int(a), MV::Int(MInt { w: 12, n: Num { neg, mag } })) }),
                        (text(t), text(t)).prop_map(|(a, b)| (MV::Str(a), MV::Str(b))),
                        (mts(), mts(), 0..5_u8).prop_map(|(a, b, k)| { let mut c = a.clone(); match k { 0 => c.y = b.y, 1 => c.ord = b.ord, 2 => c.secs = b.secs, _ => c.ns = b.ns } (MV::Ts(a), MV::Ts(c)) }),
                        (f64_bits(), f64_bits(), f64_bits()).prop_map(|(a, b, c)| (MV::Polar(a, b), MV::Polar(a, c))),
                        (f64_bits(), 0..64_u8).prop_map(|(a, k)| (MV::F64(a), MV::F64(a ^ (1 << k)))),
                        (f32_bits(), 0..32_u8).prop_map(|(a, k)| (MV::F32(a), MV::F32(a ^ (1 << k)))),
                        (mint(), mint(), mint(), any::<bool>()).prop_map(|(a, b, c, w)| (MV::Cart(a, b), if w { MV::Cart(c, b) } else { MV::Cart(a, c) })),
                        (mint(), mint()).prop_map(|(a, b)| (MV::Cart(a, b), MV::Cart(b, a))),
                        (any::<[u16; 8]>(), 0..8_usize, any::<u16>()).prop_map(|(a, i, x)| { let mut b = a; b[i] = x; (MV::V6(a), MV::V6(b)) }),
                        (any::<[u8; 4]>(), 0..4_usize, any::<u8>()).prop_map(|(a, i, x)| { let mut b = a; b[i] = x; (MV::V4(a), MV::V4(b)) }),
                        (mbin(t), mbin(t)).prop_map(|(a, b)| (MV::Bin(a), MV::Bin(b))),
                        (0..600_u16, 0..600_u16).prop_map(|(a, b)| (MV::Tz(a), MV::Tz(b))),
                        (any::<char>(), any::<char>()).prop_map(|(a, b)| (MV::Ch(a), MV::Ch(b))),
                        (any::<char>()).prop_map(|a| (MV::Ch(a), MV::Str(a.to_string()))),
                        (mj_with(t, f64_finite_bits()), mj_with(t, f64_finite_bits())).prop_map(|(a, b)| (MV::Json(a), MV::Json(b))),
                        (btree_map("[a-b]{1,2}", (0..3_i128).prop_map(|n| MV::Int(MInt { w: 3, n: Num::i(n) })), 0..4), btree_map("[a-b]{1,2}", (0..3_i128).prop_map(|n| MV::Int(MInt { w: 9, n: Num::i(n) })), 0..4)).prop_map(|(a, b)| (MV::Map(a), MV::Map(b))),
                        (vec((0..3_i128).prop_map(|n| MV::Int(MInt { w: 3, n: Num::i(n) })), 0..4), vec((0..3_i128).prop_map(|n| MV::Int(MInt { w: 9, n: Num::i(n) })), 0..4)).prop_map(|(a, b)| (MV::Arr(a), MV::Arr(b))),
                    ];
                    (near(t), any::<bool>()).prop_map(|((a, b), through_bytes)| {
                        (no_nan(a), Copy_ { widths: vec![0], flip_zeros: false, reverse_maps: false, spare: 0, through_bytes, swap: Some((0, no_nan(b))) })
                    })
                },
                c16,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C17
fn ty_of(v: &MV) -> ValueTy {
    match v {
        MV::Ch(_) => ValueTy::Character,
        MV::Str(_) => ValueTy::String,
        MV::Bin(_) => ValueTy::Binary,
        MV::Bool(_) => ValueTy::Boolean,
        MV::Int(_) => ValueTy::Integer,
        MV::Cart(..) | MV::Polar(..) => ValueTy::Imaginary,
        MV::Ts(_) => ValueTy::Timestamp,
        MV::Json(_) => ValueTy::JSON,
        MV::Map(_) | MV::MapN(..) => ValueTy::Map,
        MV::Null => ValueTy::Null,
        MV::F64(_) => ValueTy::DoubleFloat,
        MV::Arr(_) | MV::Rep(..) | MV::Deep(..) => ValueTy::Array,
        MV::Tz(_) => ValueTy::Timezone,
        MV::V4(_) => ValueTy::Ipv4Addr,
        MV::V6(_) => ValueTy::Ipv6Addr,
        MV::F32(_) => ValueTy::SingleFloat,
    }
}
/// The documented number of a kind.
fn ty_number(v: &MV) -> u8 {
    match v {
        MV::Ch(_) => 0,
        MV::Str(_) => 1,
        MV::Bin(_) => 2,
        MV::Bool(_) => 3,
        MV::Int(_) => 4,
        MV::Cart(..) | MV::Polar(..) => 5,
        MV::Ts(_) => 6,
        MV::Json(_) => 7,
        MV::Map(_) | MV::MapN(..) => 8,
        MV::Null => 9,
        MV::F64(_) => 10,
        MV::Arr(_) | MV::Rep(..) | MV::Deep(..) => 11,
        MV::Tz(_) => 12,
        MV::V4(_) => 13,
        MV::V6(_) => 14,
        MV::F32(_) => 15,
    }
}
fn c17(v: &MV, case: &mut Case) -> TestResult {
    let v = v.expand();
    case.label(v.kind());
    if v.is_container() || !matches!(v, MV::Null | MV::Bool(_)) {
        case.nontrivial();
    }
    let ty = ty_of(&v);
    let mut hits = 0;
    macro_rules! kind {
        ($variant:ident, $t:ty, $pat:pat, $as_:ident, $mut_:ident, $to:ident, $is:ident, $make:ident) => {{
            let here = matches!(&v, $pat);
            let what = stringify!($variant);
            let r = v.build();
            ensure!(r.$is() == here, "{} on a {} is {}", stringify!($is), v.kind(), r.$is());
            ensure!(r.$as_().is_some() == here, "{} on a {} is {}", stringify!($as_), v.kind(), r.$as_().is_some());
            let mut r2 = v.build();
            ensure!(r2.$mut_().is_some() == here, "{} on a {} is {}", stringify!($mut_), v.kind(), here);
            let t = v.build().$to();
            ensure!(t.is_some() == here, "{} on a {} is {}", stringify!($to), v.kind(), t.is_some());
            match <$t>::try_from(v.build()) {
                Ok(x) => {
                    ensure!(here, "a {} converts to {what}", v.kind());
                    same(&v, &Value::$make(x), "converted", &mut Tolerance::default()).map_err(Fail::Violation)?;
                }
                Err(ValueSerError::UnexpectedValueType { found, expected }) => {
                    ensure!(!here, "a {} does not convert to {what}", v.kind());
                    ensure!(found == ty && expected == ValueTy::$variant, "a {} that is not a {what} is reported as {found:?} instead of {expected:?}", v.kind());
                }
                Err(e) => return violation(format!("a {} does not convert to {what}: {e}", v.kind())),
            }
            if here {
                hits += 1;
                let x = t.ok_or_else(|| v_err("gone"))?;
                same(&v, &Value::$make(x.clone()), "extracted", &mut Tolerance::default()).map_err(Fail::Violation)?;
                same(&v, &Value::$variant(r.$as_().cloned().ok_or_else(|| v_err("gone"))?), "borrowed", &mut Tolerance::default()).map_err(Fail::Violation)?;
                if let Some(m) = r2.$mut_() {
                    *m = x.clone();
                }
                same(&v, &r2, "rewritten in place", &mut Tolerance::default()).map_err(Fail::Violation)?;
            }
        }};
    }
    kind!(Character, char, MV::Ch(_), as_char, as_mut_char, to_char, is_char, char);
    kind!(String, String, MV::Str(_), as_str, as_mut_str, to_str, is_str, str);
    kind!(Boolean, bool, MV::Bool(_), as_bool, as_mut_bool, to_bool, is_bool, bool);
    kind!(Integer, Integer, MV::Int(_), as_int, as_mut_int, to_int, is_int, int);
    kind!(Imaginary, Imaginary, MV::Cart(..) | MV::Polar(..), as_imaginary, as_mut_imaginary, to_imaginary, is_imaginary, imaginary);
    kind!(Timestamp, NaiveDateTime, MV::Ts(_), as_timestamp, as_mut_timestamp, to_timestamp, is_timestamp, timestamp);
    kind!(JSON, J, MV::Json(_), as_json, as_mut_json, to_json, is_json, json);
    kind!(Null, (), MV::Null, as_null, as_mut_null, to_null, is_null, null);
    kind!(DoubleFloat, f64, MV::F64(_), as_double_float, as_mut_double_float, to_double_float, is_double_float, double_float);
    kind!(SingleFloat, f32, MV::F32(_), as_single_float, as_mut_single_float, to_single_float, is_single_float, single_float);
    kind!(Array, Vec<Value>, MV::Arr(_), as_array, as_mut_array, to_array, is_array, array);
    kind!(Map, hashbrown::HashMap<String, Value>, MV::Map(_), as_map, as_mut_map, to_map, is_map, map);
    kind!(Timezone, Tz, MV::Tz(_), as_tz, as_mut_tz, to_tz, is_tz, tz);
    kind!(Ipv4Addr, Ipv4Addr, MV::V4(_), as_ipv4, as_mut_ipv4, to_ipv4, is_ipv4, ipv4);
    kind!(Ipv6Addr, Ipv6Addr, MV::V6(_), as_ipv6, as_mut_ipv6, to_ipv6, is_ipv6, ipv6);
    kind!(Binary, BinaryData, MV::Bin(_), as_binary, as_mut_binary, to_binary, is_binary, binary);
    ensure!(hits == 1, "a {} is {hits} kinds at once", v.kind());
    // the number of the kind is the documented one, both ways
    let n = ty_number(&v);
    ensure!(u8::from(ty) == n, "a {} has kind number {}", v.kind(), u8::from(ty));
    ensure!(ValueTy::try_from(n).is_ok_and(|t| t == ty), "kind number {n} is not {ty:?}");
    // a store is a map
    match Store::try_from(v.build()) {
        Ok(s) => {
            let MV::Map(m) = &v else { return violation(format!("a {} becomes a store", v.kind())) };
            same_store(m, &s, &mut Tolerance::default()).map_err(Fail::Violation)?;
        }
        Err(_) => ensure!(!matches!(v, MV::Map(_)), "a map does not become a store"),
    }
    // integers out of values: only an integer that fits
    macro_rules! ints {
        ($($t:ty => $w:literal),+) => {$({
            let want = match &v { MV::Int(i) if in_width(i.n, $w) => Some(i.n.to_string()), _ => None };
            let got = <$t>::try_from(v.build()).ok().map(|x| x.to_string());
            ensure!(got == want, "a {} as {} gives {got:?}, should be {want:?}", v.kind(), $w);
        })+};
    }
    ints!(u8 => "u8", i64 => "i64", u128 => "u128", i128 => "i128", usize => "usize", i16 => "i16");
    Ok(())
}
/// A store used as the map that it is.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Insert(String, MV),
    Remove(String),
    Get(String),
    Clear,
    Retain(String),
    Rewrite,
    Rejson,
}
fn c17_store(ops: &Vec<SOp>, case: &mut Case) -> TestResult {
    let mut s = Store::default();
    let mut m = MStore::new();
    let mut rewrites = 0;
    for op in ops {
        match op {
            SOp::Insert(k, v) => {
                let old = s.insert(k.clone(), v.build());
                let mo = m.insert(k.clone(), v.clone());
                ensure!(old.is_some() == mo.is_some(), "insert of {k:?} returns {:?}", old.is_some());
            }
            SOp::Remove(k) => {
                let (a, b) = (s.remove(k), m.remove(k));
                ensure!(a.is_some() == b.is_some(), "remove of {k:?} returns {}", a.is_some());
            }
            SOp::Get(k) => match (s.get(k), m.get(k)) {
                (Some(a), Some(b)) => same(b, a, k, &mut Tolerance::default()).map_err(Fail::Violation)?,
                (None, None) => {}
                (a, _) => return violation(format!("get of {k:?} is {}", a.is_some())),
            },
            SOp::Clear => {
                s.clear();
                m.clear();
            }
            SOp::Retain(p) => {
                s.retain(|k, _| k.starts_with(p.as_str()));
                m.retain(|k, _| k.starts_with(p.as_str()));
            }
            SOp::Rewrite => {
                rewrites += 1;
                s = Store::deser(&s.ser()).map_err(|e| v_err(format!("own bytes are refused: {e}")))?;
            }
            SOp::Rejson => {
                rewrites += 1;
                let types = true;
                if let Some(j) = s.clone().to_json(types) {
                    s = Store::from_json(j).map_err(|e| v_err(format!("own JSON is refused: {e}")))?;
                    m = m.iter().map(|(k, v)| (k.clone(), image(&v.expand()))).collect();
                }
            }
        }
        same_store(&m, &s, &mut Tolerance::default()).map_err(|e| Fail::Violation(format!("after {op:?}: {e}")))?;
        let _ = json!(null);
    }
    if rewrites > 0 && !m.is_empty() {
        case.nontrivial();
    }
    case.label_if(m.is_empty(), "ends_empty");
    Ok(())
}
pub fn c17p() -> Property {
    fn sop(t: Tier) -> BoxedStrategy<SOp> {
        let k = || prop_oneof![4 => "[a-c]{1,2}".prop_map(String::from), 1 => key()];
        // no JSON leaves: their float text is C01's matter; no lone key "JSON"
        let v = leaf(t).prop_map(plain_leap).prop_map(|v| if matches!(v, MV::Json(_)) { MV::Null } else { v }).boxed();
        prop_oneof![
            6 => (k(), mv_from(v)).prop_map(|(k, v)| SOp::Insert(if k == "JSON" { "json".into() } else { k }, v)),
            3 => k().prop_map(SOp::Remove),
            2 => k().prop_map(SOp::Get),
            1 => Just(SOp::Clear),
            1 => "[a-c]".prop_map(SOp::Retain),
            2 => Just(SOp::Rewrite),
            1 => Just(SOp::Rejson),
        ]
        .boxed()
    }
    Property {
        id: "C17",
        rule: "values of all sixteen kinds through every accessor, constructor and conversion (all pairs of kind and accessor); histories of store operations with rewrites through bytes and typed JSON in between; non-trivial: not null or boolean / a rewrite with entries left",
        level: "exploration",
        assumptions: &[],
        checks: vec![
            Pbt::boxed("accessors", 150_000, 400_000, |t| prop_oneof![3 => leaf(t), 1 => mv(t)], c17),
            Pbt::boxed("store_history", 80_000, 150_000, |t| vec(sop(t), 0..12), c17_store),
        ],
    }
}
