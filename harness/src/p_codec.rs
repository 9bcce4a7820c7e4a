//! C01-C05, C26: the binary formats.
use crate::core::*;
use crate::ensure;
use crate::harness_err;
use crate::model::*;
use crate::refcodec as rc;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::types::binary::{huffman, lz, rle, BinaryCompression, BinaryData};
use sourisdb::utilities::cursor::Cursor;
use sourisdb::utilities::huffman::Huffman;
use sourisdb::values::Value;

pub fn v_err(e: impl std::fmt::Display) -> Fail {
    Fail::Violation(e.to_string())
}

fn store_case(m: &MStore, case: &mut Case) {
    for v in m.values() {
        v.labels(case);
    }
    case.label_if(m.is_empty(), "empty_store");
    let nested = m.values().any(|v| v.any(&|x| x.is_container() && x.children().iter().any(|c| c.is_container())));
    case.label_if(nested, "nested_containers");
    case.label_if(m.values().any(|v| v.any(&|x| matches!(x, MV::Arr(a) if a.is_empty()) || matches!(x, MV::Map(a) if a.is_empty()))), "empty_container");
    case.label_if(m.values().any(|v| v.any(&|x| matches!(x, MV::Rep(_, n) | MV::MapN(_, n) if *n >= 7))), "long_form_length");
    let mut set = Default::default();
    rc::chars_of(&MV::Map(m.clone()), &mut set);
    case.label_if(set.is_empty(), "no_text");
    case.label_if(set.len() == 1, "single_symbol");
    if m.len() >= 2 || m.values().any(|v| v.is_container()) {
        case.nontrivial();
    }
}

// ---------------------------------------------------------------- C01
fn c01_roundtrip(m: &MStore, case: &mut Case) -> TestResult {
    store_case(m, case);
    let s = build_store(m);
    let bytes = s.ser();
    case.label(match bytes.get(8).map(|b| b & 0x7f) {
        Some(0) => "stored_plain",
        Some(1) => "stored_rle",
        Some(2) => "stored_lz",
        Some(3) => "stored_huffman",
        _ => "stored_other",
    });
    ensure!(bytes.starts_with(b"SOURISDB"), "a serialised store does not start with the magic");
    let back = Store::deser(&bytes).map_err(|e| v_err(format!("own serialised bytes are rejected: {e}")))?;
    let mut tol = Tolerance::default();
    same_store(m, &back, &mut tol).map_err(Fail::Violation)?;
    // a second generation: what was read is written and read again
    let bytes2 = back.ser();
    let back2 = Store::deser(&bytes2).map_err(|e| v_err(format!("second generation is rejected: {e}")))?;
    let mut tol2 = Tolerance::default();
    let again: MStore = back.iter().map(|(k, v)| model_of(v).map(|v| (k.clone(), v))).collect::<Result<_, _>>().map_err(Fail::Violation)?;
    same_store(&again, &back2, &mut tol2).map_err(|e| v_err(format!("second generation: {e}")))?;
    tolerance_result(&tol)
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "stores of 0-10 (or up to 257) entries of all value kinds, nested up to 4 levels (chains to 12), favouring format boundaries; non-trivial: at least two entries or a container value",
        level: "exploration",
        assumptions: &["arrays and maps nested up to the documented limit of 128"],
        checks: vec![
            Pbt::boxed("store_roundtrip", 30_000, 400_000, mstore, c01_roundtrip),
            Pbt::boxed("store_one_entry", 12_000, 150_000, |t| (key(), mv(t)).prop_map(|(k, v)| MStore::from([(k, v)])), c01_roundtrip),
            Pbt::boxed("store_large", 700, 8_000, |_| big_store(), c01_roundtrip),
            Pbt::boxed("store_text_only", 12_000, 150_000, |t| proptest::collection::btree_map(key(), text(t).prop_map(MV::Str), 0..12), c01_roundtrip),
        ],
    }
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TreeSrc {
    None,
    Covering,
    Text(String),
    One(char),
    English,
}
pub fn tree_src(t: Tier) -> BoxedStrategy<TreeSrc> {
    prop_oneof![
        2 => Just(TreeSrc::None),
        4 => Just(TreeSrc::Covering),
        3 => text(t).prop_map(TreeSrc::Text),
        1 => prop_oneof![Just('a'), any::<char>()].prop_map(TreeSrc::One),
        1 => Just(TreeSrc::English),
    ]
    .boxed()
}
pub fn make_tree(src: &TreeSrc, v: &MV) -> Option<Huffman<char>> {
    match src {
        TreeSrc::None => None,
        TreeSrc::Covering => {
            let mut set = Default::default();
            rc::chars_of(v, &mut set);
            let text: String = set.iter().enumerate().flat_map(|(i, c)| std::iter::repeat(*c).take(1 + i % 5)).collect();
            Huffman::new_str(text).ok()
        }
        TreeSrc::Text(t) => Huffman::new_str(t).ok(),
        TreeSrc::One(c) => Huffman::new_str(c.to_string()).ok(),
        TreeSrc::English => Some(Huffman::new_with_english_frequencies()),
    }
}
type C02In = (MV, TreeSrc, Vec<u8>, Vec<u8>);
fn c02(i: &C02In, case: &mut Case) -> TestResult {
    let (v, src, before, after) = i;
    v.labels(case);
    let tree = make_tree(src, v);
    let real = v.build();
    let enc = real.ser(tree.as_ref());
    let mut set = Default::default();
    rc::chars_of(v, &mut set);
    case.label_if(tree.is_some() && !set.is_empty(), "text_with_tree");
    if v.is_container() || (tree.is_some() && !set.is_empty()) || enc.len() > 9 {
        case.nontrivial();
    }
    let mut all = before.clone();
    all.extend(&enc);
    all.extend(after);
    let mut c = Cursor::new(&all);
    ensure!(c.move_forwards(before.len()), "cursor refused to move");
    let back = Value::deser(&mut c, tree.as_ref()).map_err(|e| v_err(format!("own serialised bytes are rejected: {e}")))?;
    ensure!(c.pos() == before.len() + enc.len(), "reading a value of {} bytes moved the cursor by {}", enc.len(), c.pos() as i64 - before.len() as i64);
    let mut tol = Tolerance::default();
    same(v, &back, "value", &mut tol).map_err(Fail::Violation)?;
    tolerance_result(&tol)
}
fn c02_seq(i: &(Vec<MV>, TreeSrc), case: &mut Case) -> TestResult {
    let (vs, src) = i;
    let whole = MV::Arr(vs.clone());
    let tree = make_tree(src, &whole);
    if vs.len() > 1 {
        case.nontrivial();
    }
    let mut all = vec![];
    for v in vs {
        all.extend(v.build().ser(tree.as_ref()));
    }
    let mut c = Cursor::new(&all);
    let mut tol = Tolerance::default();
    for (n, v) in vs.iter().enumerate() {
        let back = Value::deser(&mut c, tree.as_ref()).map_err(|e| v_err(format!("value {n} of a sequence is rejected: {e}")))?;
        same(v, &back, &format!("value {n}"), &mut tol).map_err(Fail::Violation)?;
    }
    ensure!(c.is_finished(), "{} bytes left after the sequence", c.items_remaining());
    tolerance_result(&tol)
}
pub fn c02p() -> Property {
    Property {
        id: "C02",
        rule: "values of every kind nested up to 4 levels, Huffman trees (none, covering, unrelated, single symbol, English), arbitrary bytes before and after; non-trivial: container, text coded with a tree, or more than 9 bytes",
        level: "exploration",
        assumptions: &["arrays and maps nested up to the documented limit of 128"],
        checks: vec![
            Pbt::boxed(
                "value_roundtrip",
                24000,
                800_000,
                |t| (mv(t), tree_src(t), vec(any::<u8>(), 0..6), vec(any::<u8>(), 0..6)),
                c02,
            ),
            Pbt::boxed("value_leaf_roundtrip", 200_000, 800_000, |t| (leaf(t), tree_src(t), vec(any::<u8>(), 0..3), vec(any::<u8>(), 0..6)), c02),
            Pbt::boxed("value_large", 700, 8_000, |t| (big_mv(), tree_src(t), vec(any::<u8>(), 0..3), vec(any::<u8>(), 0..6)), c02),
            Pbt::boxed("value_sequence", 40_000, 200_000, |t| (vec(mv(t), 0..6), tree_src(t)), c02_seq),
        ],
    }
}

// ---------------------------------------------------------------- C03
fn c03_store_prefix(m: &MStore, case: &mut Case) -> TestResult {
    let bytes = build_store(m).ser();
    if bytes.len() > 12 {
        case.nontrivial();
    }
    case.label(["plain", "rle", "lz", "huffman"].get((bytes[8] & 0x7f) as usize).copied().unwrap_or("?"));
    let step = (bytes.len() / 200).max(1);
    let mut cut = 0;
    while cut < bytes.len() {
        if let Ok(s) = Store::deser(&bytes[..cut]) {
            return violation(format!("the first {cut} of {} bytes are accepted as a store of {} entries", bytes.len(), s.len()));
        }
        cut += if cut < 30 || cut + 30 > bytes.len() { 1 } else { step };
    }
    Ok(())
}
fn c03_value_prefix(i: &(MV, TreeSrc), case: &mut Case) -> TestResult {
    let tree = make_tree(&i.1, &i.0);
    let bytes = i.0.build().ser(tree.as_ref());
    if bytes.len() > 2 {
        case.nontrivial();
    }
    let step = (bytes.len() / 200).max(1);
    let mut cut = 0;
    while cut < bytes.len() {
        if let Ok(v) = Value::deser(&mut Cursor::new(&&bytes[..cut]), tree.as_ref()) {
            return violation(format!("the first {cut} of {} bytes are accepted as {}", bytes.len(), truncate(&format!("{v:?}"), 200)));
        }
        cut += if cut < 30 || cut + 30 > bytes.len() { 1 } else { step };
    }
    Ok(())
}
fn c03_magic(i: &(MStore, u8, u8), case: &mut Case) -> TestResult {
    case.nontrivial();
    let (m, pos, x) = i;
    let mut bytes = build_store(m).ser();
    let pos = *pos as usize % 9;
    if pos == 8 {
        // any compression number that is not one of the four
        let n = 4 + x % 124;
        bytes[8] = bytes[8] & 0x80 | n;
    } else {
        bytes[pos] ^= x.max(&1);
    }
    match Store::deser(&bytes) {
        Err(_) => Ok(()),
        Ok(_) => violation(format!("a store with header {:02x?} is accepted", &bytes[..9])),
    }
}
/// Ill-formed bodies that an independent encoder makes; each must be refused.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    RootNotMap(MV),
    SignedState3(Num),
    ImaginaryKind(u8),
    BinaryKind(u8),
    JsonNotString(MV),
    TzNotString(MV),
    TzName(String),
    JsonText(String),
    HuffWithoutTree(String),
    Utf8(Vec<u8>),
    CharCode(u32),
    Date(u32, u32),
    LeapDay(i32),
    /// One part of a sound moment is too large by a multiple of a power of 256 (or a character's number is).
    Wide(u8, u8, u8),
    Time(u32, u32, u32, u32),
    KeyNotString(MV),
    HuffUnknownBits(u8),
    LzBack(LzBlock, u16),
}
/// How to write almost the same text.
fn near() -> (std::ops::Range<u8>, BoxedStrategy<prop::sample::Index>, BoxedStrategy<char>) {
    (0..13, any::<prop::sample::Index>().boxed(), any::<char>().boxed())
}
fn nearly(s: &str, (way, at, c): (u8, prop::sample::Index, char)) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match way {
        0 => format!(" {s}"),
        1 => format!("{s} "),
        2 => format!("{s}\n"),
        3 => format!("{s}\0"),
        4 => s.to_lowercase(),
        5 => s.to_uppercase(),
        6 => s.replace('_', " "),
        7 => s.replace('/', "\\"),
        8 => format!("{s},"),
        9 => format!("{s}{s}"),
        10 => format!("\u{feff}{s}"),
        11 => {
            v.insert(at.index(v.len() + 1), c);
            v.into_iter().collect()
        }
        _ => {
            if !v.is_empty() {
                v.remove(at.index(v.len()));
            }
            v.into_iter().collect()
        }
    }
}
fn bad_strategy(t: Tier) -> BoxedStrategy<Bad> {
    prop_oneof![
        mv(t).prop_map(Bad::RootNotMap),
        num().prop_map(Bad::SignedState3),
        (10..16_u8).prop_map(Bad::ImaginaryKind),
        (4..16_u8).prop_map(Bad::BinaryKind),
        leaf(t).prop_map(Bad::JsonNotString),
        leaf(t).prop_map(Bad::TzNotString),
        prop_oneof![
            1 => "[a-z]{1,8}".prop_map(String::from),
            1 => any::<String>(),
            2 => (any::<prop::sample::Index>(), near()).prop_map(|(i, f)| nearly(i.get(&sourisdb::chrono_tz::TZ_VARIANTS).name(), f)),
        ]
        .prop_map(Bad::TzName),
        prop_oneof![
            1 => "[a-z{}\\[\\],:]{0,8}".prop_map(String::from),
            1 => any::<String>(),
            2 => (mj(t), near()).prop_map(|(j, f)| nearly(&j.build().to_string(), f)),
        ]
        .prop_map(Bad::JsonText),
        any::<String>().prop_map(Bad::HuffWithoutTree),
        prop_oneof![
            vec(any::<u8>(), 0..6),
            (any::<String>(), prop::sample::select(vec![&b"\xc0\x80"[..], b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\x80", b"\xe2\x82", b"\xf0\x9f\x98"]), any::<String>())
                .prop_map(|(a, b, c)| [a.as_bytes(), b, c.as_bytes()].concat()),
        ]
        .prop_map(Bad::Utf8),
        (-300_000..260_000_i32).prop_map(Bad::LeapDay),
        (0..8_u8, 1..16_u8, prop_oneof![Just(1_u8), 1..=255_u8]).prop_map(|(part, by, times)| Bad::Wide(part, by, times)),
        prop_oneof![0xD800..0xE000_u32, 0x11_0000..=u32::MAX].prop_map(Bad::CharCode),
        prop_oneof![(13..300_u32, 1..28_u32), (1..=12_u32, 32..300_u32), Just((0, 1)), Just((1, 0)), Just((2, 30)), Just((4, 31))].prop_map(|(m, d)| Bad::Date(m, d)),
        prop_oneof![
            (24..500_u32, 0..60_u32, 0..60_u32, 0..10_u32),
            (0..24_u32, 60..500_u32, 0..60_u32, 0..10_u32),
            (0..24_u32, 0..60_u32, 60..500_u32, 0..10_u32),
            (0..24_u32, 0..60_u32, 0..60_u32, 2_000_000_000..=u32::MAX)
        ]
        .prop_map(|(h, m, s, n)| Bad::Time(h, m, s, n)),
        leaf(t).prop_map(Bad::KeyNotString),
        (1..8_u8).prop_map(Bad::HuffUnknownBits),
        (LzBlock::strategy(), any::<u16>()).prop_map(|(b, n)| Bad::LzBack(b, n)),
    ]
    .boxed()
}
fn c03_bad(b: &Bad, case: &mut Case) -> TestResult {
    let int = |n: u32| rc::enc_int(Num::u(n.into()));
    let mut tree = None;
    let mut body = vec![];
    let raw_string = |b: &[u8]| {
        let mut v = vec![0x10];
        v.extend(rc::enc_int(Num::u(b.len() as u128)));
        v.extend(b);
        v
    };
    let mut root_is_store = false;
    match b {
        Bad::RootNotMap(v) => {
            if matches!(v, MV::Map(_) | MV::MapN(..)) {
                return Ok(());
            }
            root_is_store = true;
            rc::Enc::new(None, 5).value(v, &mut body);
        }
        Bad::SignedState3(n) => {
            body.push(0x43);
            body.extend(rc::enc_int(*n));
        }
        Bad::ImaginaryKind(k) => {
            body.push(0x50 | k);
            body.extend([1; 40]);
        }
        Bad::BinaryKind(k) => {
            body.push(0x20 | k);
            body.extend([1; 40]);
        }
        Bad::JsonNotString(v) | Bad::TzNotString(v) => {
            if matches!(v, MV::Str(_)) {
                return Ok(());
            }
            // a JSON or time zone whose text is itself a JSON/time zone value is not a string either
            body.push(if matches!(b, Bad::JsonNotString(_)) { 0x70 } else { 0xC0 });
            rc::Enc::new(None, 5).value(v, &mut body);
        }
        Bad::TzName(s) => {
            if s.parse::<sourisdb::chrono_tz::Tz>().is_ok() {
                return Ok(());
            }
            body.push(0xC0);
            body.extend(raw_string(s.as_bytes()));
        }
        Bad::JsonText(s) => {
            if serde_json::from_str::<serde_json::Value>(s).is_ok() {
                return Ok(());
            }
            body.push(0x70);
            body.extend(raw_string(s.as_bytes()));
        }
        Bad::HuffWithoutTree(s) => {
            body.push(0x11);
            body.extend(rc::enc_bits(&s.bytes().map(|b| b & 1 == 1).collect::<Vec<_>>()));
        }
        Bad::Utf8(x) => {
            if std::str::from_utf8(x).is_ok() {
                return Ok(());
            }
            body.extend(raw_string(x));
        }
        Bad::LzBack(b, n) => {
            // one of its steps refers to what is not there
            let mut b = b.clone().sound();
            let many = b.steps.len().max(1);
            let at = usize::from(*n) % many;
            let before: usize = b.steps.iter().take(at + 1).map(|s| s.literals.len()).sum::<usize>() + b.steps.iter().take(at).map(|s| usize::from(s.len).max(4)).sum::<usize>();
            let Some(s) = b.steps.get_mut(at) else { return Ok(()) };
            s.back = match n / 64 % 4 {
                0 => 0,
                1 => u16::try_from(before + 1).unwrap_or(0),
                2 => u16::try_from(before + 1 + usize::from(n / 256)).unwrap_or(0),
                _ => if before < 65_535 { u16::MAX } else { 0 },
            };
            body.push(0x22);
            body.extend(b.bytes());
        }
        Bad::CharCode(c) => {
            body.push(0);
            body.extend(int(*c));
        }
        Bad::Date(m, d) => {
            body.push(0x61);
            for x in [2024, *m, *d, 1, 1, 1, 1] {
                body.extend(int(x));
            }
        }
        Bad::Wide(part, by, times) => {
            let by = if matches!(part, 0 | 6 | 7) { (*by).max(4) } else { *by };
            let more = u128::from(*times) << (8 * u32::from(by));
            body.push(if *part == 7 { 0 } else { 0x61 });
            let sound = if *part == 7 { &[65_u128][..] } else { &[2024, 2, 3, 4, 5, 6, 7] };
            for (i, x) in sound.iter().enumerate() {
                body.extend(rc::enc_int(Num::u(if *part == 7 || i == usize::from(*part) { x + more } else { *x })));
            }
        }
        Bad::LeapDay(y) => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                return Ok(());
            }
            body.push(if *y < 0 { 0x62 } else { 0x61 });
            body.extend(rc::enc_int(Num::i((*y).into())));
            for x in [2, 29, 1, 1, 1, 1] {
                body.extend(int(x));
            }
        }
        Bad::Time(h, m, s, n) => {
            body.push(0x61);
            for x in [2024, 1, 1, *h, *m, *s, *n] {
                body.extend(int(x));
            }
        }
        Bad::KeyNotString(v) => {
            if matches!(v, MV::Str(_)) {
                return Ok(());
            }
            body.push(0x82);
            rc::Enc::new(None, 5).value(v, &mut body);
            body.push(0x90);
        }
        Bad::HuffUnknownBits(n) => {
            // a tree whose codes are all longer than one bit, cut inside a code
            tree = Some(Huffman::new_str("aabbccdd").map_err(|e| harness_err!("{e}"))?);
            body.push(0x11);
            let n = *n as usize * 2 - 1;
            body.extend(rc::enc_bits(&vec![true; n]));
        }
    }
    case.nontrivial();
    let r = Value::deser(&mut Cursor::new(&body), tree.as_ref());
    if !root_is_store {
        if let Ok(v) = r {
            return violation(format!("ill-formed value bytes are accepted as {}", truncate(&format!("{v:?}"), 300)));
        }
    }
    // the same as a store: the bad value is the root, or sits under a key
    let mut sb = if root_is_store { vec![] } else { let mut v = vec![0x82]; v.extend(raw_string(b"k")); v };
    sb.extend(&body);
    let mut out = rc::MAGIC.to_vec();
    out.push(0);
    out.extend(rc::enc_binary(&sb, 0, 1));
    if tree.is_none() {
        if let Ok(s) = Store::deser(&out) {
            return violation(format!("an ill-formed store is accepted: {}", truncate(&format!("{s:?}"), 300)));
        }
    }
    Ok(())
}
pub fn c03p() -> Property {
    Property {
        id: "C03",
        rule: "every cut point of small serialised stores and values (at least 200 spread cuts of large ones), changed magic and compression numbers, and ill-formed bodies from an independent encoder; non-trivial: an encoding of more than 12 (store) or 2 (value) bytes, or any ill-formed body",
        level: "exploration",
        assumptions: &[],
        checks: vec![
            Pbt::boxed("store_truncated", 8_000, 40_000, mstore, c03_store_prefix),
            Pbt::boxed("value_truncated", 24_000, 80_000, |t| (mv(t), tree_src(t)), c03_value_prefix),
            Pbt::boxed("header_changed", 12_000, 60_000, |t| (mstore(t), any::<u8>(), any::<u8>()), c03_magic),
            Pbt::boxed("ill_formed", 120_000, 400_000, bad_strategy, c03_bad),
        ],
    }
}

// ---------------------------------------------------------------- C04
/// A hostile input: pieces that look like the format, and mutations of real encodings.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    pub bytes: Vec<u8>,
    pub wrap: u8,
}
fn big_int() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        num().prop_map(rc::enc_int),
        prop::sample::select(vec![1_u128 << 27, 1 << 31, 1 << 32, 1 << 40, 1 << 47, 1 << 60, (1 << 63) - 1, 1 << 63, u64::MAX as u128, (1 << 64) + 7, u128::MAX]).prop_map(|n| rc::enc_int(Num::u(n))),
        (1..=16_u8, vec(any::<u8>(), 16)).prop_map(|(n, b)| {
            let mut v = vec![239 + n];
            v.extend(&b[..n as usize]);
            v
        }),
    ]
    .boxed()
}
fn token() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => any::<u8>().prop_map(|b| vec![b]),
        3 => (0..16_u8, 0..16_u8).prop_map(|(t, f)| vec![t << 4 | f]),
        3 => big_int(),
        2 => (prop::sample::select(vec![0xB1_u8, 0x81]), big_int()).prop_map(|(t, n)| { let mut v = vec![t]; v.extend(n); v }),
        2 => (prop::sample::select(vec![0x20_u8, 0x21, 0x22, 0x23]), big_int(), vec(any::<u8>(), 0..12)).prop_map(|(t, n, b)| { let mut v = vec![t]; v.extend(n); v.extend(b); v }),
        1 => (big_int(), any::<u8>()).prop_map(|(n, b)| { let mut v = vec![0x23, 1]; v.extend(n); v.push(b); v }),
        1 => (prop::sample::select(vec![0_u8, 0xB2, 0x82, 0x70, 0xC0, 0x11, 1]), 1..400_usize).prop_map(|(b, n)| vec![b; n]),
        2 => vec(any::<u8>(), 0..12).prop_map(|b| { let mut v = vec![0x10, b.len() as u8]; v.extend(b); v }),
        1 => vec(any::<bool>(), 0..40).prop_map(|b| { let mut v = vec![0x11]; v.extend(rc::enc_bits(&b)); v }),
        1 => (vec(any::<u8>(), 0..30), big_int()).prop_map(|(c, n)| { let mut v = vec![0x22]; v.extend(n); v.extend(rc::enc_int(Num::u(c.len() as u128))); v.extend(c); v }),
        1 => "[a-z]{1,6}".prop_map(|s: String| { let mut v = vec![0x10, s.len() as u8]; v.extend(s.bytes()); v }),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
enum Mutation {
    Set(prop::sample::Index, u8),
    Flip(prop::sample::Index, u8),
    Insert(prop::sample::Index, Vec<u8>),
    Remove(prop::sample::Index, u8),
    Cut(prop::sample::Index),
    Dup(prop::sample::Index, u8),
}
fn mutation() -> BoxedStrategy<Mutation> {
    let ix = || any::<prop::sample::Index>();
    prop_oneof![
        3 => (ix(), any::<u8>()).prop_map(|(i, b)| Mutation::Set(i, b)),
        3 => (ix(), 0..8_u8).prop_map(|(i, b)| Mutation::Flip(i, b)),
        2 => (ix(), token()).prop_map(|(i, b)| Mutation::Insert(i, b)),
        2 => (ix(), 1..6_u8).prop_map(|(i, b)| Mutation::Remove(i, b)),
        1 => ix().prop_map(Mutation::Cut),
        1 => (ix(), 1..20_u8).prop_map(|(i, b)| Mutation::Dup(i, b)),
    ]
    .boxed()
}
fn mutate(mut b: Vec<u8>, ms: &[Mutation]) -> Vec<u8> {
    for m in ms {
        if b.is_empty() {
            if let Mutation::Insert(_, x) = m {
                b = x.clone();
            }
            continue;
        }
        let n = b.len();
        match m {
            Mutation::Set(i, v) => b[i.index(n)] = *v,
            Mutation::Flip(i, v) => b[i.index(n)] ^= 1 << v,
            Mutation::Insert(i, x) => {
                let at = i.index(n + 1);
                b.splice(at..at, x.iter().copied());
            }
            Mutation::Remove(i, k) => {
                let at = i.index(n);
                b.drain(at..(at + *k as usize).min(n));
            }
            Mutation::Cut(i) => b.truncate(i.index(n)),
            Mutation::Dup(i, k) => {
                let at = i.index(n);
                let x = b[at..(at + *k as usize).min(n)].to_vec();
                b.splice(at..at, x);
            }
        }
    }
    b
}
pub fn hostile_value(t: Tier) -> BoxedStrategy<Hostile> {
    let wrap = 0..8_u8;
    prop_oneof![
        3 => (vec(token(), 1..12), wrap.clone()).prop_map(|(t, wrap)| Hostile { bytes: t.concat(), wrap }),
        3 => (mv(t), any::<u64>(), vec(mutation(), 1..5), wrap.clone()).prop_map(|(v, s, ms, wrap)| {
            let mut b = vec![];
            rc::Enc::new(None, s).value(&v, &mut b);
            Hostile { bytes: mutate(b, &ms), wrap }
        }),
        1 => (vec(any::<u8>(), 0..60), wrap.clone()).prop_map(|(bytes, wrap)| Hostile { bytes, wrap }),
        // deep chains, ended properly or not
        1 => (prop::sample::select(vec![vec![0xB2_u8], vec![0x82, 0x10, 1, b'k'], vec![0x70], vec![0xC0], vec![0xB4, 0x90], vec![0]]), prop_oneof![1..300_usize, 1000..4000_usize, Just(100_000), Just(300_000)], any::<bool>(), wrap)
            .prop_map(|(u, n, close, wrap)| {
                let n = if u.len() > 1 { n.min(200_000) } else { n };
                let mut bytes = u.repeat(n);
                if close {
                    bytes.push(0x90);
                }
                Hostile { bytes, wrap }
            }),
    ]
    .boxed()
}
fn reencode_value(v: &Value, tree: Option<&Huffman<char>>) -> TestResult {
    if binary_bytes(v) > 16 << 20 {
        return Ok(()); // a decompression bomb: every further step would copy it several times
    }
    let m = model_of(v).map_err(|e| v_err(format!("an accepted value cannot be read: {e}")))?;
    let enc = v.ser(tree);
    let mut c = Cursor::new(&enc);
    let back = Value::deser(&mut c, tree).map_err(|e| v_err(format!("an accepted value is rejected after being written again: {e} ({})", truncate(&format!("{v:?}"), 300))))?;
    ensure!(c.is_finished(), "bytes left after re-reading an accepted value");
    let mut tol = Tolerance::default();
    same(&m, &back, "re-read", &mut tol).map_err(Fail::Violation)?;
    // a value which was accepted can be used: compared, hashed, shown, exported (the
    // last two take many times the memory of a big binary value)
    let _ = v == &back;
    hash_of(v);
    if binary_bytes(v) < 2000 {
        let _ = format!("{v}");
        let _ = v.clone().convert_to_json(true);
    }
    tolerance_result(&tol)
}
fn binary_bytes(v: &Value) -> usize {
    match v {
        Value::Binary(b) => b.0.len(),
        Value::Array(a) => a.iter().map(binary_bytes).sum(),
        Value::Map(m) => m.values().map(binary_bytes).sum(),
        _ => 0,
    }
}
pub fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, Fail> {
    // the stack that the daemon's workers have
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, f)
            .map_err(|e| harness_err!("spawn: {e}"))?
            .join()
            .map_err(|_| harness_err!("thread"))
    })
}
fn c04_value(h: &Hostile, case: &mut Case) -> TestResult {
    let bytes = &h.bytes;
    let tree = match h.wrap {
        0 => Huffman::new_str("abcdefabcab").ok(),
        1 => Huffman::new_str("a").ok(),
        _ => None,
    };
    let run = || {
        let mut c = Cursor::new(bytes);
        guarded(|| Value::deser(&mut c, tree.as_ref()).ok()).map(|v| (v, c.pos()))
    };
    let go = || -> Result<(bool, usize), Fail> {
        let (v, pos) = run().map_err(|(m, l)| v_err(format!("decoding panicked: {m} at {l}")))?;
        let got = v.is_some();
        if let Some(v) = v {
            if bytes.len() < 5000 {
                match guarded(|| reencode_value(&v, tree.as_ref())) {
                    Ok(r) => match r {
                        Err(Fail::Known { sig, .. }) if sig == SIG_JSON_FLOAT => {}
                        o => o?,
                    },
                    Err((m, l)) => return Err(v_err(format!("using an accepted value panicked: {m} at {l}"))),
                }
            }
            drop(v);
        }
        Ok((got, pos))
    };
    let (got, pos) = on_small_stack(go)??;
    case.label(if got { "accepted" } else { "rejected" });
    case.label_if(bytes.len() > 5000, "deep_or_long");
    if pos > 1 || got {
        case.nontrivial();
    }
    ensure!(pos <= bytes.len(), "cursor past the end");
    Ok(())
}
fn c04_store(h: &Hostile, case: &mut Case) -> TestResult {
    let mut full;
    let bytes = if h.wrap < 6 {
        full = rc::MAGIC.to_vec();
        // wrapped as the body of a store, with or without a tree in front
        let ct = h.wrap % 4;
        let mut body = vec![];
        if h.wrap >= 4 {
            let t = rc::Tree::shaped(&['a', 'b', 'k'], 1).ok_or_else(|| harness_err!("tree"))?;
            rc::enc_char_tree(&t, &mut body);
        }
        body.extend(&h.bytes);
        full.push(u8::from(h.wrap >= 4) << 7 | ct);
        if h.wrap == 3 {
            // the raw bytes are the compressed form itself
            full.extend(&h.bytes);
        } else {
            full.extend(rc::enc_binary(&body, ct, 7));
        }
        &full
    } else {
        full = rc::MAGIC.to_vec();
        full.extend(&h.bytes);
        &full
    };
    let go = || -> Result<bool, Fail> {
        let s = guarded(|| Store::deser(bytes).ok()).map_err(|(m, l)| v_err(format!("decoding panicked: {m} at {l}")))?;
        let got = s.is_some();
        if let Some(s) = s {
            if bytes.len() < 5000 && s.values().map(binary_bytes).sum::<usize>() <= 16 << 20 {
                match guarded(|| reencode_value(&Value::Map((*s).clone()), None)) {
                    Ok(r) => match r {
                        Err(Fail::Known { sig, .. }) if sig == SIG_JSON_FLOAT => {}
                        o => o?,
                    },
                    Err((m, l)) => return Err(v_err(format!("using an accepted store panicked: {m} at {l}"))),
                }
                let b2 = guarded(|| s.ser()).map_err(|(m, l)| v_err(format!("writing an accepted store panicked: {m} at {l}")))?;
                Store::deser(&b2).map_err(|e| v_err(format!("an accepted store is rejected after being written again: {e}")))?;
            }
        }
        Ok(got)
    };
    let got = on_small_stack(go)??;
    case.label(if got { "accepted" } else { "rejected" });
    if bytes.len() > 10 {
        case.nontrivial();
    }
    Ok(())
}
pub fn c04_store_mut(t: Tier) -> BoxedStrategy<Hostile> {
    prop_oneof![
        3 => (mstore(t), any::<u64>(), vec(mutation(), 1..5)).prop_map(|(m, s, ms)| {
            let b = rc::enc_store(&m, s);
            let mut x = mutate(b[8..].to_vec(), &ms);
            x.truncate(1 << 16);
            Hostile { bytes: x, wrap: 7 }
        }),
        2 => hostile_value(t),
        1 => (any::<u8>(), vec(token(), 0..10)).prop_map(|(b, t)| {
            let mut bytes = vec![b & 0x83];
            bytes.extend(t.concat());
            Hostile { bytes, wrap: 7 }
        }),
    ]
    .boxed()
}
/// The smaller decoders: binary payloads, trees, bits, integers.
fn c04_parts(i: &(Vec<u8>, u8), case: &mut Case) -> TestResult {
    let (b, which) = i;
    let mut c = Cursor::new(b);
    let r: Result<(), String> = match which % 7 {
        n @ 0..=3 => {
            let ct = BinaryCompression::try_from(n).map_err(|e| v_err(format!("{e}")))?;
            match BinaryData::deser(ct, &mut c) {
                Ok(d) if d.0.len() > 16 << 20 => Ok(()), // a decompression bomb
                Ok(d) => {
                    let (ct2, enc) = d.ser();
                    let back = BinaryData::deser(ct2, &mut Cursor::new(&enc)).map_err(|e| v_err(format!("accepted binary does not round trip: {e}")))?;
                    ensure!(back.0 == d.0, "accepted binary changes when written again");
                    Ok(())
                }
                Err(e) => Err(e.to_string()),
            }
        }
        4 => match Huffman::<u8>::deser(&mut c) {
            Ok(h) => {
                let bits = sourisdb::utilities::bits::Bits::deser(&mut c);
                if let Ok(bits) = bits {
                    let _ = h.decode(bits);
                }
                let again = h.ser();
                let h2 = Huffman::<u8>::deser(&mut Cursor::new(&again)).map_err(|e| v_err(format!("accepted tree does not round trip: {e}")))?;
                ensure!(h2.ser() == again, "tree bytes change");
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        },
        5 => match Huffman::<char>::deser(&mut c) {
            Ok(h) => {
                if let Ok(bits) = sourisdb::utilities::bits::Bits::deser(&mut c) {
                    let _ = h.decode_string(bits);
                }
                let again = h.ser();
                let h2 = Huffman::<char>::deser(&mut Cursor::new(&again)).map_err(|e| v_err(format!("accepted tree does not round trip: {e}")))?;
                ensure!(h2.ser() == again, "tree bytes change");
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        },
        _ => match sourisdb::utilities::bits::Bits::deser(&mut c) {
            Ok(bits) => {
                let n = bits.len();
                let v: Vec<bool> = bits.clone().into();
                ensure!(v.len() == n, "bits length {n} but {} bits come out", v.len());
                for (k, b) in v.iter().enumerate() {
                    ensure!(bits[k] == *b, "bit {k} differs between index and iteration");
                }
                let rebuilt: sourisdb::utilities::bits::Bits = v.iter().copied().collect();
                ensure!(rebuilt == bits && rebuilt.ser() == bits.ser(), "bits read from bytes differ from the same bits pushed one by one");
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        },
    };
    case.label(["plain", "rle", "lz", "huff_binary", "u8_tree", "char_tree", "bits"][(which % 7) as usize]);
    case.label(if r.is_ok() { "accepted" } else { "rejected" });
    if c.pos() > 1 {
        case.nontrivial();
    }
    Ok(())
}
pub fn c04p() -> Property {
    Property {
        id: "C04",
        rule: "token soups of the format, mutated valid encodings, deep chains up to 300 000 levels and random bytes, decoded on a 2 MiB stack with single allocations above 64 MiB refused; non-trivial: the decoder consumed more than one byte or accepted",
        level: "exploration",
        assumptions: &["a single allocation above 64 MiB counts as excessive", "text shown of accepted values only below 5000 bytes of input"],
        checks: vec![
            Pbt::boxed("hostile_value", 50_000, 1_500_000, hostile_value, c04_value),
            Pbt::boxed("hostile_store", 50_000, 1_500_000, c04_store_mut, c04_store),
            Pbt::boxed(
                "hostile_parts",
                24000,
                1_500_000,
                |_| {
                    (
                        prop_oneof![
                            vec(token(), 1..8).prop_map(|t| t.concat()),
                            vec(prop_oneof![Just(0_u8), Just(1), any::<u8>()], 0..60),
                            (big_int(), vec(any::<u8>(), 0..20)).prop_map(|(mut n, b)| { n.extend(b); n }),
                            (0..60_u8, vec(any::<u8>(), 0..9)).prop_map(|(n, b)| { let mut v = vec![n]; v.extend(b); v }),
                            (big_int(), 0..40_u8, vec(any::<u8>(), 0..40)).prop_map(|(mut n, k, b)| { n.push(k); n.extend(b); n }),
                            (big_int(), any::<u8>()).prop_map(|(n, b)| { let mut v = vec![1]; v.extend(n); v.push(b); v }),
                            prop_oneof![Just(10_000_usize), Just(300_000)].prop_map(|n| vec![0; n]),
                        ],
                        0..7_u8,
                    )
                },
                c04_parts,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C30
/// One sequence of an LZ4 block: literals, then how far back and how long the copy is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LzStep {
    pub literals: Vec<u8>,
    pub back: u16,
    pub len: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LzBlock {
    pub steps: Vec<LzStep>,
    pub last: Vec<u8>,
    /// how much more or less than is there it claims to hold
    pub claim: i8,
}
impl LzBlock {
    fn strategy() -> BoxedStrategy<Self> {
        let back = prop_oneof![3 => Just(0_u16), 6 => 1..5_u16, 6 => 1..60_u16, 1 => any::<u16>()];
        let step = (prop_oneof![Just(0_usize), 0..8_usize, 0..40_usize], any::<u8>(), back, prop_oneof![4..19_u16, 4..600_u16]).prop_map(|(n, b, back, len)| LzStep {
            literals: (0..n).map(|i| b.wrapping_add((i * i) as u8)).collect(),
            back,
            len,
        });
        (vec(step, 0..8), vec(any::<u8>(), 0..40), prop_oneof![8 => Just(0_i8), 1 => any::<i8>()]).prop_map(|(steps, last, claim)| Self { steps, last, claim }).boxed()
    }
    /// With its steps pointing into what there is before them, as far as there is anything.
    fn sound(mut self) -> Self {
        let mut n = 0;
        self.steps.retain_mut(|s| {
            n += s.literals.len();
            if n == 0 {
                return false;
            }
            s.back = (usize::from(s.back) % n.min(65_535) + 1) as u16;
            n += usize::from(s.len);
            true
        });
        self.claim = 0;
        if self.last.len() < 20 {
            self.last.extend([7; 20]);
        }
        self
    }
    fn block(&self) -> (Vec<u8>, usize) {
        let mut out = vec![];
        let mut total = self.last.len();
        let long = |n: usize, out: &mut Vec<u8>| {
            if n >= 15 {
                out.extend(std::iter::repeat(255).take((n - 15) / 255));
                out.push(((n - 15) % 255) as u8);
            }
        };
        for s in &self.steps {
            let (l, m) = (s.literals.len(), usize::from(s.len).max(4) - 4);
            out.push((l.min(15) << 4 | m.min(15)) as u8);
            long(l, &mut out);
            out.extend(&s.literals);
            out.extend(s.back.to_le_bytes());
            long(m, &mut out);
            total += l + m + 4;
        }
        out.push((self.last.len().min(15) << 4) as u8);
        long(self.last.len(), &mut out);
        out.extend(&self.last);
        (out, total)
    }
    fn bytes(&self) -> Vec<u8> {
        let (b, total) = self.block();
        let mut out = rc::enc_int(Num::u(total.saturating_add_signed(self.claim.into()) as u128));
        out.extend(rc::enc_int(Num::u(b.len() as u128)));
        out.extend(b);
        out
    }
}
const FILLS: [u8; 3] = [0, 0x41, 0xff];
/// What comes out with fresh memory holding this or that: the same each time.
fn whatever_memory_holds<R>(f: impl Fn() -> R, same: impl Fn(&R, &R) -> bool, show: impl Fn(&R) -> String) -> Result<R, Fail> {
    let once = |b| {
        let before = crate::alloc::fill(Some(b));
        let r = guarded(&f);
        crate::alloc::fill(before);
        r.map_err(|(m, l)| v_err(format!("it panicked: {m} at {l}")))
    };
    let first = once(FILLS[0])?;
    for b in &FILLS[1..] {
        let again = once(*b)?;
        ensure!(same(&first, &again), "with fresh memory of {} it gives {}, with {b}: {}", FILLS[0], truncate(&show(&first), 400), truncate(&show(&again), 400));
    }
    Ok(first)
}
fn model_or_none(v: Option<Value>) -> Result<Option<MV>, Fail> {
    v.map(|v| model_of(&v).map_err(Fail::Violation)).transpose()
}
fn c30_value(h: &Hostile, case: &mut Case) -> TestResult {
    let tree = if h.wrap % 4 == 0 { Huffman::new_str("abcdefabcab").ok() } else { None };
    if h.bytes.len() > 20_000 {
        return Ok(());
    }
    let read = || {
        let mut c = Cursor::new(&h.bytes);
        let v = Value::deser(&mut c, tree.as_ref()).ok().filter(|v| binary_bytes(v) < 1 << 20);
        (model_or_none(v).unwrap_or(None), c.pos())
    };
    let (v, pos) = on_small_stack(|| whatever_memory_holds(read, |a, b| a == b, |x| format!("{x:?}")))??;
    case.label(if v.is_some() { "accepted" } else { "rejected" });
    if pos > 1 {
        case.nontrivial();
    }
    Ok(())
}
fn c30_store(h: &Hostile, case: &mut Case) -> TestResult {
    let mut bytes = rc::MAGIC.to_vec();
    bytes.extend(&h.bytes);
    if bytes.len() > 20_000 {
        return Ok(());
    }
    let read = || {
        let s = Store::deser(&bytes).ok().map(|s| Value::Map((*s).clone()));
        model_or_none(s.filter(|v| binary_bytes(v) < 1 << 20)).unwrap_or(None)
    };
    let v = on_small_stack(|| whatever_memory_holds(read, |a, b| a == b, |x| format!("{x:?}")))??;
    case.label(if v.is_some() { "accepted" } else { "rejected" });
    if bytes.len() > 10 {
        case.nontrivial();
    }
    Ok(())
}
fn c30_lz(b: &LzBlock, case: &mut Case) -> TestResult {
    let bytes = b.bytes();
    let read = || BinaryData::deser(BinaryCompression::LempelZiv, &mut Cursor::new(&bytes)).ok().map(|d| d.0);
    let got = whatever_memory_holds(read, |a, b| a == b, |x| format!("{x:?}"))?;
    case.label(if got.is_some() { "accepted" } else { "rejected" });
    if !b.steps.is_empty() {
        case.nontrivial();
    }
    if let Some(got) = got {
        let (block, total) = b.block();
        if total.saturating_add_signed(b.claim.into()) == 0 {
            // nothing is what it says it holds
            return Ok(());
        }
        match rc::lz4_decode(&block) {
            Ok(want) => ensure!(want == got, "the block is read as {} instead of {}", truncate(&format!("{got:?}"), 400), truncate(&format!("{want:?}"), 400)),
            Err(e) => return violation(format!("a block that refers to what is not there ({}) is read as {}", e.0, truncate(&format!("{got:?}"), 400))),
        }
    }
    // a block which refers only to what is there
    let b = b.clone().sound();
    let bytes = b.bytes();
    let want = rc::lz4_decode(&b.block().0).map_err(|e| harness_err!("a sound block: {}", e.0))?;
    match BinaryData::deser(BinaryCompression::LempelZiv, &mut Cursor::new(&bytes)) {
        Ok(d) => ensure!(d.0 == want, "a sound block is read as {} instead of {}", truncate(&format!("{:?}", d.0), 400), truncate(&format!("{want:?}"), 400)),
        Err(e) => return violation(format!("a sound block is refused: {e}")),
    }
    Ok(())
}
/// Also what is written; the trees may be others each time.
fn c30_written(m: &MStore, case: &mut Case) -> TestResult {
    store_case(m, case);
    let s = build_store(m);
    let seen = whatever_memory_holds(|| rc::dec_store(&s.ser()).ok(), |a, b| a == b, |x| format!("{x:?}"))?;
    cmp_models(m, &seen.ok_or_else(|| v_err("what is written is not the format"))?)
}
pub fn c30p() -> Property {
    Property {
        id: "C30",
        rule: "hostile values and stores (as for C04), LZ4 blocks made of sequences that refer to what is there and to what is not, and stores to write, each three times with all freshly allocated memory filled differently; non-trivial: more than one byte read, a block with a reference, a store with entries",
        level: "exploration",
        assumptions: &["memory on the stack is not varied"],
        checks: vec![
            Pbt::boxed("read_value", 60_000, 800_000, hostile_value, c30_value),
            Pbt::boxed("read_store", 60_000, 800_000, c04_store_mut, c30_store),
            Pbt::boxed("lz_blocks", 300_000, 3_000_000, |_| LzBlock::strategy(), c30_lz),
            Pbt::boxed("written_store", 20_000, 200_000, mstore, c30_written),
        ],
    }
}

// ---------------------------------------------------------------- C05
fn c05(i: &(MBin, Vec<u8>), case: &mut Case) -> TestResult {
    let data = i.0.bytes();
    let tail = &i.1;
    let mut set: Vec<u8> = data.clone();
    set.sort_unstable();
    set.dedup();
    case.label(match set.len() {
        0 => "empty",
        1 => "one_symbol",
        _ => "mixed",
    });
    if data.len() > 1 {
        case.nontrivial();
    }
    let d = BinaryData(data.clone());
    let (ct, chosen) = d.ser();
    let plain = rc::enc_binary(&data, 0, 1);
    let forms: [(BinaryCompression, Vec<u8>); 3] =
        [(BinaryCompression::RunLengthEncoding, rle::rle(&data)), (BinaryCompression::LempelZiv, lz::lz(&data)), (BinaryCompression::Huffman, huffman::huffman(&data))];
    let best = forms.iter().map(|f| f.1.len()).chain([plain.len()]).min().unwrap_or(0);
    ensure!(chosen.len() <= plain.len(), "the chosen form ({}) is larger than the plain one: {} > {}", u8::from(ct), chosen.len(), plain.len());
    ensure!(chosen.len() <= best, "the chosen form is {} bytes, another one is {best}", chosen.len());
    case.label(["chosen_plain", "chosen_rle", "chosen_lz", "chosen_huffman"][u8::from(ct) as usize % 4]);
    for (c, enc) in forms.into_iter().chain([(ct, chosen), (BinaryCompression::Nothing, plain)]) {
        let n = u8::from(c);
        let mut all = enc.clone();
        all.extend(tail);
        let mut cur = Cursor::new(&all);
        let back = BinaryData::deser(c, &mut cur).map_err(|e| v_err(format!("codec {n} rejects its own output: {e}")))?;
        ensure!(back.0 == data, "codec {n} changed the data: {} bytes became {}, first difference at {:?}", data.len(), back.0.len(), back.0.iter().zip(&data).position(|(a, b)| a != b));
        ensure!(cur.pos() == enc.len(), "codec {n} wrote {} bytes and read {}", enc.len(), cur.pos());
        // and an independent decoder of the documented form agrees
        let mut r = rc::Rd::new(&all);
        let theirs = rc::dec_binary(n, &mut r).map_err(|e| v_err(format!("codec {n}: output is not the documented form: {}", e.0)))?;
        ensure!(theirs == data && r.p == enc.len(), "codec {n}: an independent decoder reads something else");
    }
    Ok(())
}
fn c05_value(b: &MBin, case: &mut Case) -> TestResult {
    let data = b.bytes();
    if data.len() > 1 {
        case.nontrivial();
    }
    let v = Value::Binary(BinaryData(data.clone()));
    let enc = v.ser(None);
    ensure!(enc.len() <= 1 + rc::enc_binary(&data, 0, 1).len(), "a binary value takes more than its plain form");
    Ok(())
}
/// A few megabytes.
fn large_bin() -> BoxedStrategy<MBin> {
    let n = || 900_000..2_500_000_u32;
    prop_oneof![
        (any::<u64>(), n()).prop_map(|(s, n)| MBin::Noise(s, n)),
        (vec(any::<u8>(), 1..40), n()).prop_map(|(b, n)| {
            let n = n / b.len() as u32;
            MBin::Repeat(b, n)
        }),
        vec((any::<u8>(), 1..900_000_u32), 2..5).prop_map(MBin::Runs),
    ]
    .boxed()
}
pub fn c05p() -> Property {
    Property {
        id: "C05",
        rule: "byte strings: random, runs across the 255 limit, repeats, noise, few symbols, 0-64 KiB, and some of megabytes; each through all codecs with bytes following; non-trivial: at least two bytes",
        level: "exploration",
        assumptions: &[],
        checks: vec![
            Pbt::boxed("binary_codecs", 120_000, 400_000, |t| (mbin(t), vec(any::<u8>(), 0..5)), c05),
            Pbt::boxed("binary_value_size", 40_000, 100_000, mbin, c05_value),
            Pbt::boxed("binary_codecs_large", 60, 600, |_| (large_bin(), vec(any::<u8>(), 0..5)), c05),
        ],
    }
}

// ---------------------------------------------------------------- C26
fn c26_write(m: &MStore, case: &mut Case) -> TestResult {
    store_case(m, case);
    let bytes = build_store(m).ser();
    let got = rc::dec_store(&bytes).map_err(|e| v_err(format!("written bytes are not the documented format: {}", e.0)))?;
    cmp_models(m, &got)
}
fn strip(m: &MV) -> MV {
    // integers are compared as numbers; the way they were made is not part of the format
    match m {
        MV::Int(i) => MV::Int(MInt { w: 12, n: i.n }),
        MV::Cart(a, b) => MV::Cart(MInt { w: 12, n: a.n }, MInt { w: 12, n: b.n }),
        MV::Bin(b) => MV::Bin(MBin::Bytes(b.bytes())),
        MV::Arr(a) => MV::Arr(a.iter().map(strip).collect()),
        MV::Map(a) => MV::Map(a.iter().map(|(k, v)| (k.clone(), strip(v))).collect()),
        o => o.clone(),
    }
}
pub fn cmp_models(want: &MStore, got: &MStore) -> TestResult {
    let a = strip(&MV::Map(want.clone()).expand());
    let b = strip(&MV::Map(got.clone()).expand());
    ensure!(a == b, "an independent reader sees {} instead of {}", truncate(&format!("{b:?}"), 600), truncate(&format!("{a:?}"), 600));
    Ok(())
}
fn c26_read(i: &(MStore, u64), case: &mut Case) -> TestResult {
    let (m, seed) = i;
    store_case(m, case);
    let bytes = rc::enc_store(m, *seed);
    case.label(["in_plain", "in_rle", "in_lz", "in_huffman"][(bytes[8] & 3) as usize]);
    case.label_if(bytes[8] & 0x80 != 0, "in_tree");
    // the reference agrees with itself
    let selfcheck = rc::dec_store(&bytes).map_err(|e| harness_err!("reference codec: {}", e.0))?;
    if let Err(Fail::Violation(x)) = cmp_models(m, &selfcheck) {
        return Err(harness_err!("reference codec: {x}"));
    }
    let back = Store::deser(&bytes).map_err(|e| v_err(format!("a store in the documented format is rejected: {e}")))?;
    let mut tol = Tolerance::default();
    same_store(m, &back, &mut tol).map_err(Fail::Violation)
}
fn c26_value_bytes(v: &MV, case: &mut Case) -> TestResult {
    // without a tree and without binary, the bytes of a value are fully determined (up to map order)
    let has_free = v.any(&|x| matches!(x, MV::Bin(_) | MV::Map(_) | MV::MapN(..) | MV::Json(_)));
    if has_free {
        return Ok(());
    }
    case.nontrivial();
    v.labels(case);
    let mut want = vec![];
    rc::Enc::new(None, 1).value(v, &mut want);
    let got = v.build().ser(None);
    ensure!(got == want || signed_equiv(v), "written {:02x?}, the documented form is {:02x?}", &got[..got.len().min(40)], &want[..want.len().min(40)]);
    Ok(())
}
/// Integers parsed from text may legitimately carry either non-negative state.
fn signed_equiv(v: &MV) -> bool {
    v.any(&|x| match x {
        MV::Int(i) => i.w == 12 || i.n.mag == 0,
        MV::Cart(a, b) => a.w == 12 || b.w == 12 || a.n.mag == 0 || b.n.mag == 0,
        _ => false,
    })
}
fn c26_doc(_: &u8, case: &mut Case) -> TestResult {
    case.nontrivial();
    let v = Value::Array(vec![Value::bool(true), Value::from(1_i32), Value::Character('🖖')]);
    let want = [182_u8, 49, 65, 1, 0, 242, 150, 245, 1];
    let got = v.ser(None);
    ensure!(got == want, "the example in the documentation is written as {got:?}");
    Ok(())
}
pub fn c26p() -> Property {
    Property {
        id: "C26",
        rule: "stores written by the library and read by an independent decoder, and stores written by an independent encoder (all compressions, any Huffman tree) and read by the library; non-trivial: at least two entries or a container value",
        level: "exploration",
        assumptions: &["the independent codec implements the format as documented in the sources"],
        checks: vec![
            Pbt::boxed("written_bytes", 24_000, 250_000, mstore, c26_write),
            Pbt::boxed("written_bytes_large", 300, 4_000, |_| big_store(), c26_write),
            Pbt::boxed("read_bytes", 24_000, 250_000, |t| (mstore(t), any::<u64>()), c26_read),
            Pbt::boxed("read_bytes_large", 300, 4_000, |_| (big_store(), any::<u64>()), c26_read),
            Pbt::boxed("value_bytes", 100_000, 400_000, mv, c26_value_bytes),
            Pbt::boxed_shards("documented_example", 1, 1, 1, 1, |_| Just(0_u8), c26_doc),
        ],
    }
}
