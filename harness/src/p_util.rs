//! C06-C08: Huffman coding, bit lists, cursors.
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_codec::{hash_of, v_err};
use crate::refcodec as rc;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::utilities::bits::Bits;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::utilities::huffman::Huffman;
use std::collections::BTreeMap;
use std::hash::Hash;
use std::io::{Seek, SeekFrom};

// ---------------------------------------------------------------- C06
/// The smallest possible number of bits for data with these frequencies.
fn optimal_cost(freq: &[u64]) -> u64 {
    let mut w: Vec<u64> = freq.to_vec();
    if w.len() == 1 {
        return w[0];
    }
    let mut cost = 0;
    while w.len() > 1 {
        w.sort_unstable_by(|a, b| b.cmp(a));
        let a = w.pop().unwrap_or(0) + w.pop().unwrap_or(0);
        cost += a;
        w.push(a);
    }
    cost
}
fn frequencies<T: Ord + Clone>(d: &[T]) -> BTreeMap<T, u64> {
    let mut m = BTreeMap::new();
    for t in d {
        *m.entry(t.clone()).or_insert(0) += 1;
    }
    m
}
fn to_bools(b: &Bits) -> Vec<bool> {
    (0..b.len()).map(|i| b[i]).collect()
}
/// The laws of one code: made from `corpus`, used for `msg`.
fn huff_laws<T: Ord + Hash + Eq + Clone + std::fmt::Debug>(h: &Huffman<T>, alphabet: &[T], msg: &[T], case: &mut Case) -> TestResult {
    // every symbol has a code, and no code is the start of another
    let mut codes: Vec<(T, Vec<bool>)> = vec![];
    for t in alphabet {
        let b = h.encode(std::iter::once(t.clone())).map_err(|e| v_err(format!("{t:?} was given but cannot be encoded: {e}")))?;
        ensure!(!b.is_empty(), "{t:?} has an empty code");
        codes.push((t.clone(), to_bools(&b)));
    }
    for (i, (a, x)) in codes.iter().enumerate() {
        for (b, y) in &codes[i + 1..] {
            ensure!(!x.starts_with(y) && !y.starts_with(x), "the codes of {a:?} and {b:?} are not prefix-free: {x:?} {y:?}");
        }
    }
    let table: BTreeMap<T, Vec<bool>> = codes.into_iter().collect();
    // a message is the concatenation of its symbols' codes
    let known = msg.iter().all(|t| table.contains_key(t));
    case.label(if known { "known_symbols" } else { "unknown_symbol" });
    let enc = h.encode(msg.iter().cloned());
    if !known {
        ensure!(enc.is_err(), "a message with a symbol that the tree does not have is encoded");
        return Ok(());
    }
    let enc = enc.map_err(|e| v_err(format!("a message of known symbols is refused: {e}")))?;
    let bits = to_bools(&enc);
    let mut want: Vec<bool> = vec![];
    let mut ends = vec![0_usize];
    for t in msg {
        want.extend(&table[t]);
        ends.push(want.len());
    }
    ensure!(bits == want, "a message is not encoded as the codes of its symbols");
    let back = h.decode(enc).map_err(|e| v_err(format!("own encoding is refused: {e}")))?;
    ensure!(back == msg, "{} symbols decode to {}: {:?} became {:?}", msg.len(), back.len(), truncate(&format!("{msg:?}"), 300), truncate(&format!("{back:?}"), 300));
    // cut anywhere: whole symbols are kept, and a cut inside a symbol is an error
    let step = (bits.len() / 60).max(1);
    let mut cut = 0;
    while cut <= bits.len() {
        let got = h.decode(Bits::from(&bits[..cut]));
        match ends.binary_search(&cut) {
            Ok(n) => {
                let got = got.map_err(|e| v_err(format!("{cut} bits that are {n} whole symbols are refused: {e}")))?;
                ensure!(got == msg[..n], "the first {cut} bits decode to {} symbols, not {n}", got.len());
            }
            Err(_) => ensure!(got.is_err(), "{cut} bits that end inside a symbol are accepted"),
        }
        cut += step;
    }
    Ok(())
}
fn huff_optimal<T: Ord + Hash + Eq + Clone>(h: &Huffman<T>, corpus: &[T]) -> TestResult {
    let f: Vec<u64> = frequencies(corpus).into_values().collect();
    let got = h.encode(corpus.iter().cloned()).map_err(|e| v_err(format!("the corpus is refused: {e}")))?.len() as u64;
    let best = optimal_cost(&f);
    ensure!(got == best, "the corpus takes {got} bits, an optimal prefix code takes {best}");
    Ok(())
}
fn c06_str(i: &(String, String), case: &mut Case) -> TestResult {
    let (corpus, msg) = i;
    let cs: Vec<char> = corpus.chars().collect();
    let h = match Huffman::new_str(corpus) {
        Ok(h) => h,
        Err(e) => {
            ensure!(cs.is_empty(), "no tree for {} characters: {e}", cs.len());
            return Ok(());
        }
    };
    ensure!(!cs.is_empty(), "a tree without symbols");
    let alphabet: Vec<char> = frequencies(&cs).into_keys().collect();
    case.label(match alphabet.len() {
        1 => "one_symbol",
        2..=3 => "few_symbols",
        _ => "many_symbols",
    });
    if alphabet.len() > 1 && !msg.is_empty() {
        case.nontrivial();
    }
    huff_optimal(&h, &cs)?;
    let ms: Vec<char> = msg.chars().collect();
    huff_laws(&h, &alphabet, &ms, case)?;
    huff_laws(&h, &alphabet, &cs, &mut Case::default())?;
    if let Ok(b) = h.encode_string(msg) {
        ensure!(to_bools(&b) == to_bools(&h.encode(ms.iter().copied()).map_err(v_err)?), "encode_string and encode differ");
        let t = h.decode_string(b).map_err(|e| v_err(format!("decode_string refuses own bits: {e}")))?;
        ensure!(t == *msg, "{msg:?} decodes to {t:?}");
    }
    // the tree survives being written, with bytes after it
    let mut ser = h.ser();
    let n = ser.len();
    ser.extend([0, 1, 255]);
    let mut c = Cursor::new(&ser);
    let h2 = Huffman::<char>::deser(&mut c).map_err(|e| v_err(format!("own tree is refused: {e}")))?;
    ensure!(c.pos() == n, "a tree of {n} bytes moved the cursor by {}", c.pos());
    for t in &alphabet {
        let (x, y) = (h.encode(std::iter::once(*t)).map_err(v_err)?, h2.encode(std::iter::once(*t)).map_err(v_err)?);
        ensure!(x == y, "{t:?} is {x} before and {y} after the tree is written");
    }
    huff_laws(&h2, &alphabet, &ms, case)?;
    for cut in 0..n {
        if cut > 40 && cut + 40 < n {
            continue;
        }
        ensure!(Huffman::<char>::deser(&mut Cursor::new(&&ser[..cut])).is_err(), "the first {cut} of a tree's {n} bytes are accepted");
    }
    // and agrees with the independent reading of the same bytes
    let tree = rc::dec_char_tree(&mut rc::Rd::new(&ser)).map_err(|e| v_err(format!("the written tree is not well formed: {e:?}")))?;
    for (t, code) in tree.codes() {
        ensure!(to_bools(&h.encode(std::iter::once(t)).map_err(v_err)?) == code, "{t:?} has another code in the written tree");
    }
    Ok(())
}
fn c06_bytes(i: &(Vec<u8>, Vec<u8>), case: &mut Case) -> TestResult {
    let (corpus, msg) = i;
    let Ok((h, bits)) = Huffman::new_and_encode(corpus.iter().copied()) else {
        ensure!(corpus.is_empty(), "no tree for {} bytes", corpus.len());
        return Ok(());
    };
    ensure!(!corpus.is_empty(), "a tree without symbols");
    let alphabet: Vec<u8> = frequencies(corpus).into_keys().collect();
    if alphabet.len() > 1 {
        case.nontrivial();
    }
    case.label_if(alphabet.len() > 128, "wide_alphabet");
    let back = h.decode(bits).map_err(|e| v_err(format!("own encoding is refused: {e}")))?;
    ensure!(back == *corpus, "new_and_encode of {} bytes decodes to {}", corpus.len(), back.len());
    huff_optimal(&h, corpus)?;
    huff_laws(&h, &alphabet, msg, case)?;
    let mut ser = h.ser();
    let n = ser.len();
    ser.push(7);
    let mut c = Cursor::new(&ser);
    let h2 = Huffman::<u8>::deser(&mut c).map_err(|e| v_err(format!("own tree is refused: {e}")))?;
    ensure!(c.pos() == n, "a tree of {n} bytes moved the cursor by {}", c.pos());
    for t in &alphabet {
        let (x, y) = (h.encode(std::iter::once(*t)).map_err(v_err)?, h2.encode(std::iter::once(*t)).map_err(v_err)?);
        ensure!(x == y, "{t} is {x} before and {y} after the tree is written");
    }
    huff_laws(&h2, &alphabet, msg, &mut Case::default())
}
fn c06_other(i: &(Vec<(i32, bool)>, Vec<(i32, bool)>), case: &mut Case) -> TestResult {
    let (corpus, msg) = i;
    let Ok(h) = Huffman::new(corpus.iter().copied()) else {
        ensure!(corpus.is_empty(), "no tree for {} items", corpus.len());
        return Ok(());
    };
    let alphabet: Vec<(i32, bool)> = frequencies(corpus).into_keys().collect();
    if alphabet.len() > 1 && !msg.is_empty() {
        case.nontrivial();
    }
    huff_optimal(&h, corpus)?;
    huff_laws(&h, &alphabet, msg, case)
}
fn c06_english(s: &String, case: &mut Case) -> TestResult {
    let h = Huffman::new_with_english_frequencies();
    let cs: Vec<char> = s.chars().collect();
    let known: Vec<char> = (0..=255_u8).map(char::from).filter(|c| h.encode(std::iter::once(*c)).is_ok()).collect();
    for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,\"'-\n".chars() {
        ensure!(known.contains(&c), "{c:?} has no code in the English tree");
    }
    if cs.len() > 1 {
        case.nontrivial();
    }
    huff_laws(&h, &known, &cs, case)
}
/// Corpora: skewed, flat, fibonacci-like (deep), and one symbol.
fn corpus_str(t: Tier) -> BoxedStrategy<String> {
    prop_oneof![
        3 => text(t),
        2 => vec((any::<char>(), 1..40_usize), 0..12).prop_map(|v| v.into_iter().flat_map(|(c, n)| std::iter::repeat(c).take(n)).collect()),
        1 => (2..14_usize).prop_map(|n| { let (mut a, mut b) = (1, 1); let mut s = String::new(); for i in 0..n { s.extend(std::iter::repeat(char::from(b'a' + i as u8)).take(a)); (a, b) = (b, a + b); } s }),
        1 => (any::<char>(), 1..40_usize).prop_map(|(c, n)| std::iter::repeat(c).take(n).collect()),
    ]
    .boxed()
}
fn corpus_and_msg(t: Tier) -> BoxedStrategy<(String, String)> {
    (corpus_str(t), vec(any::<prop::sample::Index>(), 0..40), prop_oneof![4 => Just(None), 1 => any::<char>().prop_map(Some)])
        .prop_map(|(c, ix, odd)| {
            let cs: Vec<char> = c.chars().collect();
            let mut m: String = if cs.is_empty() { String::new() } else { ix.iter().map(|i| *i.get(&cs)).collect() };
            m.extend(odd);
            (c, m)
        })
        .boxed()
}
fn corpus_bytes(t: Tier) -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    (mbin(t), vec(any::<prop::sample::Index>(), 0..40), prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some)])
        .prop_map(|(b, ix, odd)| {
            let mut b = b.bytes();
            b.truncate(4000);
            let mut m: Vec<u8> = if b.is_empty() { vec![] } else { ix.iter().map(|i| *i.get(&b)).collect() };
            m.extend(odd);
            (b, m)
        })
        .boxed()
}
/// Frequencies that make codes as long as a corpus of a few hundred thousand symbols allows.
/// `bump` keeps the shape from being always the same; the order of the symbols is shuffled by `step`.
fn c06_deep(i: &(u8, u8, u16, bool), case: &mut Case) -> TestResult {
    let (n, bump, step, english_order) = *i;
    let n = usize::from(n);
    let (mut a, mut b) = (1_usize, 1_usize);
    let mut freqs = vec![];
    for k in 0..n {
        freqs.push(a + usize::from(k == usize::from(bump) % n));
        (a, b) = (b, a + b);
    }
    if english_order {
        freqs.reverse();
    }
    let name = |k: usize| (k * (2 * usize::from(step) + 1) % 256) as u8;
    let bytes: Vec<u8> = freqs.iter().enumerate().flat_map(|(k, f)| std::iter::repeat(name(k)).take(*f)).collect();
    let alphabet: Vec<u8> = (0..n).map(name).collect();
    let h = Huffman::new(bytes.iter().copied()).map_err(v_err)?;
    huff_optimal(&h, &bytes)?;
    let longest = alphabet.iter().filter_map(|x| h.encode(std::iter::once(*x)).ok()).map(|x| x.len()).max().unwrap_or(0);
    case.label(match longest {
        0..=16 => "codes_to_16_bits",
        17..=24 => "codes_to_24_bits",
        _ => "longer_codes",
    });
    if longest > 16 {
        case.nontrivial();
    }
    huff_laws(&h, &alphabet, &alphabet, &mut Case::default())?;
    let ser = h.ser();
    let h2 = Huffman::<u8>::deser(&mut Cursor::new(&ser)).map_err(|e| v_err(format!("own tree with codes of {longest} bits is refused: {e}")))?;
    huff_laws(&h2, &alphabet, &alphabet, &mut Case::default())?;
    // the same shape over characters, as a store's tree has it
    let cs: Vec<char> = alphabet.iter().map(|x| char::from_u32(0x4E00 + u32::from(*x)).unwrap_or('x')).collect();
    let text: String = bytes.iter().map(|x| char::from_u32(0x4E00 + u32::from(*x)).unwrap_or('x')).collect();
    let h = Huffman::new_str(&text).map_err(v_err)?;
    huff_laws(&h, &cs, &cs, &mut Case::default())?;
    let ser = h.ser();
    let h2 = Huffman::<char>::deser(&mut Cursor::new(&ser)).map_err(|e| v_err(format!("own tree with codes of {longest} bits is refused: {e}")))?;
    huff_laws(&h2, &cs, &cs, &mut Case::default())
}
pub fn c06p() -> Property {
    Property {
        id: "C06",
        rule: "corpora (skewed, flat, fibonacci-deep, one symbol, all 256 bytes, pairs) and messages over them, one in five with a foreign symbol; every code checked for prefix-freeness, every message cut at up to 60 bit positions; non-trivial: at least two symbols and a message",
        level: "exploration",
        assumptions: &["corpora up to 6000 symbols, and up to 500000 in the deep check"],
        checks: vec![
            Pbt::boxed("strings", 160_000, 500_000, corpus_and_msg, c06_str),
            Pbt::boxed("bytes", 50_000, 150_000, corpus_bytes, c06_bytes),
            Pbt::boxed("other_types", 120_000, 400_000, |_| (vec((-4..4_i32, any::<bool>()), 0..60), vec((-4..4_i32, any::<bool>()), 0..20)), c06_other),
            Pbt::boxed("deep", 160, 1_500, |t| (14..if t == Tier::Quick { 25_u8 } else { 28 }, any::<u8>(), any::<u16>(), any::<bool>()), c06_deep),
            Pbt::boxed("english", 30_000, 60_000, |_| prop_oneof![3 => "[a-zA-Z0-9 .,']{0,80}".prop_map(String::from), 1 => any::<String>()], c06_english),
        ],
    }
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Push(bool),
    PushRun(bool, u16),
    Pop,
    PopMany(u16),
    PushMany(Vec<bool>),
    PushManyBinary(Vec<u8>),
    Clear,
    Rewrite(Vec<u8>),
    FromBools(Vec<bool>),
    FromBinary(Vec<u8>),
    PushIntoNew(bool),
    Collect(Vec<Vec<bool>>),
    Raw(Vec<u8>, u8),
    /// a long list in place of the current one
    Long(u32, u64),
}
/// A long list, a few more steps.
fn long_history() -> BoxedStrategy<Vec<BOp>> {
    (prop_oneof![4000..9000_u32, 65_000..67_000_u32, 120_000..140_000_u32], any::<u64>(), vec(bop(), 0..4))
        .prop_map(|(n, seed, mut ops)| {
            ops.insert(0, BOp::Long(n, seed));
            ops
        })
        .boxed()
}
fn bop() -> BoxedStrategy<BOp> {
    let bools = || vec(any::<bool>(), 0..20);
    prop_oneof![
        6 => any::<bool>().prop_map(BOp::Push),
        1 => (any::<bool>(), prop_oneof![0..20_u16, 230..300_u16, 1900..2000_u16]).prop_map(|(b, n)| BOp::PushRun(b, n)),
        4 => Just(BOp::Pop),
        1 => prop_oneof![0..20_u16, 200..300_u16].prop_map(BOp::PopMany),
        3 => bools().prop_map(BOp::PushMany),
        1 => vec(any::<bool>(), 20..320).prop_map(BOp::PushMany),
        1 => vec(any::<u8>(), 0..4).prop_map(BOp::PushManyBinary),
        1 => vec(any::<u8>(), 4..40).prop_map(BOp::PushManyBinary),
        1 => Just(BOp::Clear),
        3 => vec(any::<u8>(), 0..4).prop_map(BOp::Rewrite),
        1 => bools().prop_map(BOp::FromBools),
        1 => vec(any::<u8>(), 0..5).prop_map(BOp::FromBinary),
        1 => (vec(any::<u8>(), 5..40), any::<u8>()).prop_map(|(b, x)| BOp::Raw(b, x)),
        1 => any::<bool>().prop_map(BOp::PushIntoNew),
        1 => vec(bools(), 0..4).prop_map(BOp::Collect),
        2 => (vec(any::<u8>(), 1..6), any::<u8>()).prop_map(|(b, x)| BOp::Raw(b, x)),
    ]
    .boxed()
}
fn bytes_to_bools(b: &[u8]) -> Vec<bool> {
    (0..b.len() * 8).map(|i| b[i / 8] & (1 << (i % 8)) != 0).collect()
}
fn bools_to_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | u8::from(*x) << i)).collect()
}
fn bits_same(b: &Bits, m: &[bool]) -> TestResult {
    ensure!(b.len() == m.len(), "length {} should be {}", b.len(), m.len());
    ensure!(b.is_empty() == m.is_empty(), "is_empty is wrong at length {}", m.len());
    for (i, want) in m.iter().enumerate() {
        ensure!(b[i] == *want, "bit {i} of {} is wrong", m.len());
    }
    let v: Vec<bool> = b.clone().into();
    ensure!(v == m, "as a Vec<bool>: {v:?} should be {m:?}");
    let text: String = m.iter().map(|b| if *b { '1' } else { '0' }).collect();
    ensure!(b.to_string() == text, "shows as {b}, should be {text}");
    let bytes = b.get_proper_bytes();
    ensure!(bytes == bools_to_bytes(m), "bytes {bytes:?} should be {:?}", bools_to_bytes(m));
    let it: Vec<bool> = b.clone().into_iter().collect();
    ensure!(it == m, "iterates as {it:?}, should be {m:?}");
    let fresh: Bits = m.iter().copied().collect();
    ensure!(*b == fresh && fresh == *b, "{b} is not equal to the same bits pushed one by one");
    ensure!(hash_of(b) == hash_of(&fresh), "{b} hashes differently from the same bits pushed one by one");
    if !m.is_empty() {
        let mut other = m.to_vec();
        let k = other.len() - 1;
        other[k] = !other[k];
        ensure!(*b != Bits::from(&other), "equal to bits that differ in the last one");
        other[k] = !other[k];
        other[0] = !other[0];
        ensure!(*b != Bits::from(&other), "equal to bits that differ in the first one");
        ensure!(*b != Bits::from(&m[..k]), "equal to one bit fewer");
        let mut more = m.to_vec();
        more.push(false);
        ensure!(*b != Bits::from(&more), "equal to one zero bit more");
    }
    ensure!(!format!("{b:?}").is_empty(), "no debug text");
    Ok(())
}
fn c07(ops: &Vec<BOp>, case: &mut Case) -> TestResult {
    let mut b = Bits::default();
    let mut m: Vec<bool> = vec![];
    let mut popped_mid_byte = false;
    for op in ops {
        match op {
            BOp::Push(x) => {
                b.push(*x);
                m.push(*x);
            }
            BOp::PushRun(x, n) => {
                for _ in 0..*n {
                    b.push(*x);
                    m.push(*x);
                }
            }
            BOp::Pop => {
                popped_mid_byte |= m.len() % 8 != 1;
                let (got, want) = (b.pop(), m.pop());
                ensure!(got == want, "pop gives {got:?}, should be {want:?}");
            }
            BOp::PopMany(n) => {
                for _ in 0..*n {
                    let (got, want) = (b.pop(), m.pop());
                    ensure!(got == want, "pop gives {got:?}, should be {want:?}");
                }
            }
            BOp::PushMany(v) => {
                b.push_many(Bits::from(v));
                m.extend(v);
            }
            BOp::PushManyBinary(v) => {
                b.push_many(Bits::from_binary(v.clone()));
                m.extend(bytes_to_bools(v));
            }
            BOp::Clear => {
                b.clear();
                m.clear();
            }
            BOp::Rewrite(tail) => {
                let mut ser = b.ser();
                let want = rc::enc_bits(&m);
                ensure!(ser == want, "{} bits are written as {ser:?}, not {want:?}", m.len());
                let n = ser.len();
                for cut in [0, 1, n.saturating_sub(1)] {
                    if cut < n {
                        ensure!(Bits::deser(&mut Cursor::new(&&ser[..cut])).is_err(), "the first {cut} of {n} bytes are accepted");
                    }
                }
                ser.extend(tail);
                let mut c = Cursor::new(&ser);
                b = Bits::deser(&mut c).map_err(|e| v_err(format!("own bytes are refused: {e}")))?;
                ensure!(c.pos() == n, "{n} bytes written, {} consumed", c.pos());
                case.label("rewritten");
            }
            BOp::FromBools(v) => {
                b = Bits::from(v);
                m.clone_from(v);
            }
            BOp::FromBinary(v) => {
                b = Bits::from_binary(v.clone());
                m = bytes_to_bools(v);
            }
            BOp::PushIntoNew(x) => {
                let n = b.push_into_new(*x);
                bits_same(&b, &m)?;
                m.push(*x);
                b = n;
            }
            BOp::Collect(vs) => {
                b = vs.iter().map(Bits::from).collect();
                m = vs.concat();
            }
            BOp::Long(n, seed) => {
                let mut x = *seed | 1;
                m = (0..*n)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        x & 4 != 0
                    })
                    .collect();
                b = Bits::default();
                b.push_many(m.iter().copied().collect());
                case.label("long");
            }
            BOp::Raw(bytes, cut) => {
                // bytes of any origin, with whatever in the unused bits
                let n = (bytes.len() * 8).saturating_sub(*cut as usize % 8);
                let mut ser = rc::enc_int(Num::u(n as u128));
                ser.extend(bytes);
                b = Bits::deser(&mut Cursor::new(&ser)).map_err(|e| v_err(format!("{n} bits in {} bytes are refused: {e}", bytes.len())))?;
                m = bytes_to_bools(bytes);
                m.truncate(n);
                case.label("dirty_padding");
            }
        }
        bits_same(&b, &m).map_err(|e| match e {
            Fail::Violation(s) => Fail::Violation(format!("after {op:?}: {}", truncate(&s, 1500))),
            e => e,
        })?;
    }
    case.label_if(popped_mid_byte, "popped_inside_a_byte");
    case.label_if(m.len() > 239, "long_form_length");
    if ops.len() > 2 && !m.is_empty() {
        case.nontrivial();
    }
    let n = m.len();
    ensure!(guarded(|| b[n]).is_err(), "a bit beyond the end can be read");
    Ok(())
}
pub fn c07p() -> Property {
    Property {
        id: "C07",
        rule: "histories of up to 25 pushes, pops, bulk pushes, rewrites through bytes (also with dirty unused bits) and conversions, compared after every step with a list of booleans, and up to three such steps on lists of up to 140000 bits; non-trivial: three or more steps that leave some bits",
        level: "exploration",
        assumptions: &["lists up to a few thousand bits, and up to 140000 in the long check"],
        checks: vec![Pbt::boxed("history", 600_000, 3_000_000, |_| vec(bop(), 0..25), c07), Pbt::boxed("long", 250, 4_000, |_| long_history(), c07)],
    }
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Fwd(u64),
    Back(u64),
    Read(u64),
    ReadExact(u8),
    Peek(u64),
    PeekExact(u8),
    ReadRemaining,
    PeekRemaining,
    AsRef,
    Next,
    Take(u8),
    SetPos(u64),
    SeekStart(u64),
    SeekEnd(i64),
    SeekCurrent(i64),
    StreamPos,
    Rewind,
}
fn cop() -> BoxedStrategy<COp> {
    let n = || prop_oneof![12 => 0..8_u64, 3 => 0..40_u64, 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1), 1 => Just(i64::MAX as u64), 1 => any::<u64>()];
    let i = || prop_oneof![12 => -8..8_i64, 3 => -40..40_i64, 1 => Just(i64::MIN), 1 => Just(i64::MAX), 1 => Just(i64::MIN + 1), 1 => any::<i64>()];
    prop_oneof![
        n().prop_map(COp::Fwd),
        n().prop_map(COp::Back),
        n().prop_map(COp::Read),
        (0..6_u8).prop_map(COp::ReadExact),
        n().prop_map(COp::Peek),
        (0..6_u8).prop_map(COp::PeekExact),
        Just(COp::ReadRemaining),
        Just(COp::PeekRemaining),
        Just(COp::AsRef),
        Just(COp::Next),
        (0..6_u8).prop_map(COp::Take),
        n().prop_map(COp::SetPos),
        n().prop_map(COp::SeekStart),
        i().prop_map(COp::SeekEnd),
        i().prop_map(COp::SeekCurrent),
        Just(COp::StreamPos),
        Just(COp::Rewind),
    ]
    .boxed()
}
fn c08(i: &(Vec<u16>, Vec<COp>), case: &mut Case) -> TestResult {
    let (data, ops) = i;
    let mut c = Cursor::new(data);
    let mut p = 0_usize;
    let len = data.len();
    let (mut refused, mut moved) = (0, 0);
    for op in ops {
        let before = p;
        // what a read of n gives; None means out of bounds
        let window = |n: u64| -> Option<&[u16]> { usize::try_from(n).ok().and_then(|n| p.checked_add(n)).and_then(|e| data.get(p..e)) };
        // an empty read at the very end may be refused or be empty
        let agree = |got: Option<&[u16]>, want: Option<&[u16]>| got == want || (p == len && want == Some(&[]) && got.is_none());
        macro_rules! exact {
            ($n:literal, $m:ident) => {{
                let got = c.$m::<$n>().map(|a| a.as_slice());
                let want = window($n);
                ensure!(agree(got, want), "{op:?} at {p} of {len} gives {got:?}, should be {want:?}");
                want.map(<[u16]>::len)
            }};
        }
        let seek = |c: &mut Cursor<u16>, from: SeekFrom, target: i128| -> Result<Option<usize>, Fail> {
            let got = c.seek(from);
            let want = usize::try_from(target).ok().filter(|t| *t <= len);
            match (got, want) {
                (Ok(g), Some(w)) => {
                    ensure!(g == w as u64, "{from:?} at {before} of {len} says {g}, should be {w}");
                    Ok(Some(w))
                }
                (Err(_), None) => Ok(None),
                (g, w) => violation(format!("{from:?} at {before} of {len} gives {g:?}, should be {w:?}")),
            }
        };
        match op {
            COp::Fwd(n) => {
                let want = window(*n).map(|w| p + w.len());
                let got = c.move_forwards(*n as usize);
                ensure!(got == want.is_some(), "{op:?} at {p} of {len} gives {got}");
                p = want.unwrap_or(p);
                refused += u32::from(!got);
            }
            COp::Back(n) => {
                let want = p.checked_sub(*n as usize);
                let got = c.move_backwards(*n as usize);
                ensure!(got == want.is_some(), "{op:?} at {p} of {len} gives {got}");
                p = want.unwrap_or(p);
                refused += u32::from(!got);
            }
            COp::Read(n) => {
                let want = window(*n);
                let got = c.read(*n as usize);
                ensure!(agree(got, want), "{op:?} at {p} of {len} gives {got:?}, should be {want:?}");
                refused += u32::from(want.is_none());
                p += want.map_or(0, <[u16]>::len);
            }
            COp::Peek(n) => {
                let want = window(*n);
                let got = c.peek(*n as usize);
                ensure!(agree(got, want), "{op:?} at {p} of {len} gives {got:?}, should be {want:?}");
            }
            COp::ReadExact(n) => {
                let w = match n {
                    0 => exact!(0, read_exact),
                    1 => exact!(1, read_exact),
                    2 => exact!(2, read_exact),
                    3 => exact!(3, read_exact),
                    4 => exact!(8, read_exact),
                    _ => exact!(16, read_exact),
                };
                p += w.unwrap_or(0);
            }
            COp::PeekExact(n) => {
                match n {
                    0 => exact!(0, peek_exact),
                    1 => exact!(1, peek_exact),
                    2 => exact!(2, peek_exact),
                    3 => exact!(3, peek_exact),
                    4 => exact!(8, peek_exact),
                    _ => exact!(16, peek_exact),
                };
            }
            COp::ReadRemaining => {
                let got = c.read_remaining();
                ensure!(got == &data[p..], "{op:?} at {p} of {len} gives {got:?}");
                p = len;
            }
            COp::PeekRemaining => {
                let got = c.peek_remaining();
                ensure!(got == &data[p..], "{op:?} at {p} of {len} gives {got:?}");
            }
            COp::AsRef => {
                let got: &[u16] = c.as_ref();
                ensure!(got == &data[p..], "{op:?} at {p} of {len} gives {got:?}");
            }
            COp::Next => {
                let got = c.next();
                let want = data.get(p);
                ensure!(got == want, "{op:?} at {p} of {len} gives {got:?}, should be {want:?}");
                p += usize::from(want.is_some());
            }
            COp::Take(n) => {
                let got: Vec<u16> = c.by_ref().take(*n as usize).copied().collect();
                let want: Vec<u16> = data[p..].iter().take(*n as usize).copied().collect();
                ensure!(got == want, "{op:?} at {p} of {len} gives {got:?}, should be {want:?}");
                p += want.len();
            }
            COp::SetPos(n) => {
                c.set_pos(*n as usize);
                p = len.min(*n as usize);
            }
            COp::SeekStart(n) => match seek(&mut c, SeekFrom::Start(*n), i128::from(*n))? {
                Some(w) => p = w,
                None => refused += 1,
            },
            COp::SeekEnd(n) => match seek(&mut c, SeekFrom::End(*n), len as i128 + i128::from(*n))? {
                Some(w) => p = w,
                None => refused += 1,
            },
            COp::SeekCurrent(n) => match seek(&mut c, SeekFrom::Current(*n), before as i128 + i128::from(*n))? {
                Some(w) => p = w,
                None => refused += 1,
            },
            COp::StreamPos => {
                let got = c.stream_position();
                ensure!(matches!(got, Ok(g) if g == p as u64), "stream_position at {p} gives {got:?}");
            }
            COp::Rewind => {
                ensure!(c.rewind().is_ok(), "rewind at {p} of {len} fails");
                p = 0;
            }
        }
        moved += u32::from(p != before);
        ensure!(c.pos() == p, "after {op:?} at {before} of {len} the cursor is at {}, should be {p}", c.pos());
        ensure!(c.items_remaining() == len - p, "after {op:?}: {} items remain, should be {}", c.items_remaining(), len - p);
        ensure!(c.is_finished() == (p == len), "after {op:?} at {p} of {len}: is_finished is {}", c.is_finished());
    }
    case.label_if(refused > 0, "some_refused");
    case.label_if(p == len && len > 0, "reached_the_end");
    if moved >= 2 && refused >= 1 {
        case.nontrivial();
    }
    Ok(())
}
/// Long lists, and moves as long.
fn c08_long(i: &(u32, Vec<(COp, u32)>), case: &mut Case) -> TestResult {
    let data: Vec<u16> = (0..i.0).map(|k| (k ^ k >> 16) as u16).collect();
    let ops = i.1.iter().map(|(op, by)| match op {
        COp::Fwd(_) => COp::Fwd((*by).into()),
        COp::Back(_) => COp::Back((*by).into()),
        COp::Read(_) => COp::Read((*by).into()),
        COp::Peek(_) => COp::Peek((*by).into()),
        COp::SetPos(_) => COp::SetPos((*by).into()),
        COp::SeekStart(_) => COp::SeekStart((*by).into()),
        COp::SeekEnd(n) => COp::SeekEnd(n.signum() * i64::from(*by)),
        COp::SeekCurrent(n) => COp::SeekCurrent(n.signum() * i64::from(*by)),
        o => o.clone(),
    });
    c08(&(data, ops.collect()), case)
}
pub fn c08p() -> Property {
    Property {
        id: "C08",
        rule: "histories of up to 20 moves, reads, peeks, iteration and seeks (including offsets at the integer limits) on lists of 0-24 items, and of up to 140 000, compared after every step with an index into the list; non-trivial: at least two moves and one refusal",
        level: "exploration",
        assumptions: &["a read of no items at the very end may be refused or be empty: the documentation says both"],
        checks: vec![
            Pbt::boxed("history", 2_500_000, 12_000_000, |_| (vec(any::<u16>(), 0..24), vec(cop(), 0..20)), c08),
            Pbt::boxed("long_history", 30_000, 200_000, |_| {
                let by = || prop_oneof![3 => 0..300_u32, 3 => 0..150_000_u32, 1 => 65_530..65_542_u32];
                (prop_oneof![256..70_000_u32, 65_530..140_000_u32], vec((cop(), by()), 0..14))
            }, c08_long),
        ],
    }
}
