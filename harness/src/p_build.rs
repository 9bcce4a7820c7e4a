//! C29: the library gives the same results in every build: without its optional features, and on
//! machines of another byte order and word size.
use crate::core::*;
use crate::ensure;
use crate::harness_err;
use crate::model::*;
use crate::p_codec::{cmp_models, make_tree, tree_src, TreeSrc};
use crate::refcodec as rc;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::types::binary::{BinaryCompression, BinaryData};
use sourisdb::types::integer::Integer;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

/// One question to a build of the library.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Store(MStore, u64),
    Value(MV, TreeSrc, Vec<u8>),
    Json(BTreeMap<String, MJ>),
    Int(Num),
    Word(Num),
    Calc(u8, Num, Num),
    F64(u64),
    F32(u32),
    Pack(MBin),
    Unpack(MBin, u8, u64),
    Tree(String, String),
    Bits(Vec<Vec<bool>>),
    /// The same with some bytes changed: taken or refused as elsewhere.
    DamagedStore(MStore, u64, Vec<(u16, u8)>, u16),
    DamagedValue(MV, Vec<(u16, u8)>, u16),
    DamagedJson(Vec<u8>),
}

struct Guest {
    child: Child,
    to: Option<ChildStdin>,
    from: ChildStdout,
    rest: Vec<u8>,
    /// bits of a machine word
    word: u32,
}
enum Answer {
    Line(String),
    Late,
    Ended(String),
}
impl Guest {
    fn start(foreign: bool) -> Result<Self, Fail> {
        let target = std::env::var("VERIF_TARGET").unwrap_or_else(|_| "/verif/target".into());
        let mut c = if foreign {
            let mut c = Command::new("bash");
            c.arg(verif_dir().join("small/foreign.sh"));
            c
        } else {
            Command::new(format!("{target}/small/release/small"))
        };
        let err = if foreign { Stdio::null() } else { Stdio::inherit() };
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .spawn()
            .map_err(|e| harness_err!("cannot start the other build: {e}"))?;
        let (to, Some(from)) = (child.stdin.take(), child.stdout.take()) else { return Err(harness_err!("no pipes")) };
        let mut g = Self { child, to, from, rest: vec![], word: 0 };
        match g.ask("hello", Duration::from_secs(300)) {
            Answer::Line(l) if l == if foreign { "big 32" } else { "little 64" } => {
                g.word = if foreign { 32 } else { 64 };
                Ok(g)
            }
            Answer::Line(l) => Err(harness_err!("the other build greets with {l}")),
            Answer::Late => Err(harness_err!("the other build does not start")),
            Answer::Ended(s) => Err(harness_err!("the other build does not start: {s}")),
        }
    }
    fn ask(&mut self, line: &str, limit: Duration) -> Answer {
        let until = Instant::now() + limit;
        let written = self.to.as_mut().is_some_and(|w| w.write_all(format!("{line}\n").as_bytes()).is_ok());
        let mut buf = vec![0; 1 << 16];
        while written {
            if let Some(k) = self.rest.iter().position(|b| *b == b'\n') {
                let tail = self.rest.split_off(k + 1);
                let mut line = std::mem::replace(&mut self.rest, tail);
                line.pop();
                return Answer::Line(String::from_utf8_lossy(&line).into_owned());
            }
            let left = until.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            match unsafe { libc::poll(&mut p, 1, left) } {
                0 => return Answer::Late,
                n if n < 0 => continue,
                _ => {}
            }
            let n = unsafe { libc::read(self.from.as_raw_fd(), buf.as_mut_ptr().cast(), buf.len()) };
            if n <= 0 {
                break;
            }
            self.rest.extend(&buf[..n as usize]);
        }
        Answer::Ended(self.child.wait().map_or("?".into(), |s| s.to_string()))
    }
}
impl Drop for Guest {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static GUESTS: RefCell<[Option<Guest>; 2]> = const { RefCell::new([None, None]) };
}

fn hex(b: &[u8]) -> String {
    b.iter().fold(String::from("."), |mut s, x| {
        s.push_str(&format!("{x:02x}"));
        s
    })
}
fn unhex(s: &str) -> Result<Vec<u8>, Fail> {
    let s = s.strip_prefix('.').ok_or_else(|| harness_err!("bytes are given as {s}"))?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| harness_err!("{e}"))).collect()
}
fn same_json_text(got: &str, want: Option<serde_json::Value>, what: &str) -> TestResult {
    let Some(want) = want else {
        ensure!(got == "-", "{what} gives JSON where there is none");
        return Ok(());
    };
    ensure!(got != "-", "{what} gives no JSON instead of {}", truncate(&want.to_string(), 400));
    let got: serde_json::Value = serde_json::from_slice(&unhex(got)?).map_err(|e| Fail::Violation(format!("{what}: {e}")))?;
    let want: serde_json::Value = serde_json::from_str(&want.to_string()).map_err(|e| harness_err!("{e}"))?;
    json_same(&want, &got, "json").map_err(|e| Fail::Violation(format!("{what}: {e}")))
}
fn damage(b: &mut Vec<u8>, d: &[(u16, u8)], cut: u16) {
    for (at, x) in d {
        let n = b.len().max(1);
        if let Some(p) = b.get_mut(usize::from(*at) % n) {
            *p = *x;
        }
    }
    if cut > 0 {
        b.truncate(b.len().saturating_sub(usize::from(cut)));
    }
}
fn range(w: &str, word: u32) -> (Num, Num) {
    match (w, word) {
        ("usize", 32) => width_range("u32"),
        ("isize", 32) => width_range("i32"),
        _ => width_range(w),
    }
}
fn about_int(n: Num, got: &str, word: u32) -> TestResult {
    let here: Integer = n.to_string().parse().map_err(|_| harness_err!("{n} cannot be parsed"))?;
    let (_, bytes) = here.ser();
    let f: Vec<&str> = got.split(' ').collect();
    ensure!(f.len() == 18, "about {n} it says {got}");
    let (lo_ok, neg) = (f[0] == hex(&bytes), if n.neg { "1" } else { "0" });
    ensure!(lo_ok, "{n} is written as {} instead of {}", f[0], hex(&bytes));
    ensure!(f[2] == n.to_string(), "{n} prints as {}", f[2]);
    ensure!(f[3] == neg, "{n}: is it negative? {}", f[3]);
    for (w, g) in WIDTHS.iter().zip(&f[4..16]) {
        let (lo, hi) = range(w, word);
        let fits = if n.neg { lo.neg && n.mag <= lo.mag } else { n.mag <= hi.mag };
        let want = if fits { n.to_string() } else { "-".into() };
        ensure!(*g == want, "{n} as {w} is {g} instead of {want}");
    }
    let float = |a: f64, b: f32| [a.to_bits().to_string(), b.to_bits().to_string()];
    let want = if n.neg { float(-(n.mag as f64), -(n.mag as f32)) } else { float(n.mag as f64, n.mag as f32) };
    ensure!(f[16..] == want, "{n} as floats is {:?} instead of {want:?}", &f[16..]);
    Ok(())
}
/// Asks and compares with what the same thing gives here.
fn ask(foreign: bool, a: &Ask, case: &mut Case) -> TestResult {
    let tell = |line: String, patient: bool| -> Result<Option<(String, u32)>, Fail> {
        GUESTS.with(|g| {
            let g = &mut g.borrow_mut()[usize::from(foreign)];
            if g.is_none() {
                *g = Some(Guest::start(foreign)?);
            }
            let Some(guest) = g.as_mut() else { return Ok(None) };
            let answer = guest.ask(&line, Duration::from_secs(90));
            let word = guest.word;
            let what = if foreign { "the build for a 32-bit big-endian machine" } else { "the build without optional features" };
            match answer {
                Answer::Line(l) => match l.strip_prefix("panicked ") {
                    Some(m) => Err(Fail::Violation(format!("{what} panics: {}", String::from_utf8_lossy(&unhex(m)?)))),
                    None => Ok(Some((l, word))),
                },
                Answer::Late => {
                    *g = None;
                    if patient { Err(Fail::Violation(format!("{what} does not answer"))) } else { Ok(None) }
                }
                Answer::Ended(s) => {
                    *g = None;
                    Err(Fail::Violation(format!("{what} ends: {s}")))
                }
            }
        })
    };
    let must = |line: String| -> Result<(String, u32), Fail> { tell(line, true)?.ok_or_else(|| harness_err!("no answer")) };
    let ref_err = |e: rc::E| Fail::Violation(format!("what it writes is not the format: {}", e.0));
    match a {
        Ask::Store(m, seed) => {
            case.label("store");
            if m.len() > 1 || m.values().any(MV::is_container) {
                case.nontrivial();
            }
            let store = build_store(m);
            let bytes = if seed % 3 == 0 { store.ser() } else { rc::enc_store(m, *seed) };
            let (got, _) = must(format!("store {}", hex(&bytes)))?;
            ensure!(got != "refused", "a store is refused: {}", truncate(&format!("{m:?}"), 600));
            let f: Vec<&str> = got.split(' ').collect();
            ensure!(f.len() == 3, "about a store it says {got}");
            let back = unhex(f[0])?;
            let seen = rc::dec_store(&back).map_err(ref_err)?;
            cmp_models(m, &seen)?;
            let here = Store::deser(&back).map_err(|e| Fail::Violation(format!("what it writes cannot be read here: {e}")))?;
            cmp_models(m, &model(&here)?)?;
            same_json_text(f[1], store.clone().to_json(true), "with types, it")?;
            same_json_text(f[2], store.to_json(false), "without types, it")
        }
        Ask::Value(m, src, tail) => {
            case.label(m.kind());
            if m.is_container() || !matches!(m, MV::Null | MV::Bool(_)) {
                case.nontrivial();
            }
            let tree = make_tree(src, m);
            let tree_bytes = tree.as_ref().map(sourisdb::utilities::huffman::Huffman::<char>::ser).unwrap_or_default();
            let v = m.build();
            let mut bytes = v.ser(tree.as_ref());
            let n = bytes.len();
            bytes.extend(tail);
            let (got, _) = must(format!("value {} {}", hex(&bytes), hex(&tree_bytes)))?;
            ensure!(got != "refused", "a value is refused: {}", truncate(&format!("{m:?}"), 600));
            let f: Vec<&str> = got.split(' ').collect();
            ensure!(f.len() == 4, "about a value it says {got}");
            ensure!(f[0] == n.to_string(), "of {n} bytes it reads {}: {}", f[0], truncate(&format!("{m:?}"), 600));
            let back = unhex(f[1])?;
            let t = match &tree {
                Some(_) => Some(rc::dec_char_tree(&mut rc::Rd::new(&tree_bytes)).map_err(|e| harness_err!("{}", e.0))?),
                None => None,
            };
            let model = rc::dec_value(&mut rc::Rd::new(&back), t.as_ref()).map_err(ref_err)?;
            cmp_models(&MStore::from([(String::new(), m.clone())]), &MStore::from([(String::new(), model)]))?;
            ensure!(back.len() == n, "a value of {n} bytes is written in {}", back.len());
            // tables are drawn in builds with the standard library only; without, maps are on one line
            let (want, ordered) = printed(&m.expand());
            let got = String::from_utf8_lossy(&unhex(f[2])?).into_owned();
            let sorted = |s: &str| {
                let mut b = s.as_bytes().to_vec();
                b.sort_unstable();
                b
            };
            ensure!(if ordered { got == want } else { sorted(&got) == sorted(&want) }, "it prints {} instead of {}", truncate(&got, 300), truncate(&want, 300));
            same_json_text(f[3], v.convert_to_json(true), "with types, it")
        }
        Ask::Json(m) => {
            case.label("json");
            if m.len() > 1 {
                case.nontrivial();
            }
            let j = MJ::O(m.clone()).build();
            let here = Store::from_json_bytes(j.to_string().as_bytes());
            let (got, _) = must(format!("json {}", hex(j.to_string().as_bytes())))?;
            match here {
                Ok(s) => {
                    ensure!(got != "refused", "a JSON document is refused: {}", truncate(&j.to_string(), 600));
                    let there = Store::deser(&unhex(&got)?).map_err(|e| Fail::Violation(format!("what it makes of JSON cannot be read: {e}")))?;
                    let through = Store::deser(&s.ser()).map_err(|e| harness_err!("{e}"))?;
                    ensure!(model(&there)? == model(&through)?, "{} becomes {there:?}", truncate(&j.to_string(), 600));
                    rc::dec_store(&unhex(&got)?).map(|_| ()).map_err(ref_err)
                }
                Err(_) => {
                    ensure!(got == "refused", "{} is refused here and taken there", truncate(&j.to_string(), 600));
                    Ok(())
                }
            }
        }
        Ask::Int(n) => {
            case.label("int");
            if n.mag > 255 {
                case.nontrivial();
            }
            let (got, word) = must(format!("int {n}"))?;
            about_int(*n, &got, word)
        }
        Ask::Word(n) => {
            case.label("word");
            case.nontrivial();
            // a number that every machine's word holds
            let n = Num { neg: n.neg && n.mag & 0x7fff_ffff != 0, mag: n.mag & if n.neg { 0x7fff_ffff } else { 0xffff_ffff } };
            let (got, word) = must(format!("word {n}"))?;
            about_int(n, &got, word)
        }
        Ask::Calc(o, a, b) => {
            case.label("calc");
            let int = |n: &Num| n.to_string().parse::<Integer>().map_err(|_| harness_err!("{n} cannot be parsed"));
            let (x, y) = (int(a)?, int(b)?);
            // what is right is another property's business
            let (o, want) = match o % 5 {
                0 => ("+", guarded(|| (x + y).to_string())),
                1 => ("-", guarded(|| (x - y).to_string())),
                2 => ("*", guarded(|| (x * y).to_string())),
                3 => ("/", guarded(|| (x / y).to_string())),
                _ => ("=", guarded(|| (x == y).to_string())),
            };
            let Ok(want) = want else {
                case.label("calc_refused");
                let got = must(format!("calc {a} {o} {b}"));
                ensure!(got.is_err(), "{a} {o} {b} is refused here and {} there", got.map_or(String::new(), |g| g.0));
                return Ok(());
            };
            case.nontrivial();
            let (got, _) = must(format!("calc {a} {o} {b}"))?;
            ensure!(got == want, "{a} {o} {b} is {got} instead of {want}");
            Ok(())
        }
        Ask::F64(b) => {
            case.label("f64");
            let want = Integer::try_from(f64::from_bits(*b)).map_or("refused".into(), |i| i.to_string());
            if want != "refused" {
                case.nontrivial();
            }
            let (got, _) = must(format!("f64 {b}"))?;
            ensure!(got == want, "the float {:?} becomes {got} instead of {want}", f64::from_bits(*b));
            Ok(())
        }
        Ask::F32(b) => {
            case.label("f32");
            let want = Integer::try_from(f32::from_bits(*b)).map_or("refused".into(), |i| i.to_string());
            if want != "refused" {
                case.nontrivial();
            }
            let (got, _) = must(format!("f32 {b}"))?;
            ensure!(got == want, "the float {:?} becomes {got} instead of {want}", f32::from_bits(*b));
            Ok(())
        }
        Ask::Pack(b) => {
            case.label("pack");
            let data = b.bytes();
            if data.len() > 3 {
                case.nontrivial();
            }
            let (got, _) = must(format!("pack {}", hex(&data)))?;
            let (c, bytes) = got.split_once(' ').ok_or_else(|| harness_err!("{got}"))?;
            let (c, bytes) = (c.parse::<u8>().unwrap_or(255), unhex(bytes)?);
            let back = rc::dec_binary(c, &mut rc::Rd::new(&bytes)).map_err(ref_err)?;
            ensure!(back == data, "{} bytes packed with {c} read as others", data.len());
            let (_, here) = BinaryData(data).ser();
            ensure!(here.len() == bytes.len(), "packed into {} bytes there and {} here", bytes.len(), here.len());
            Ok(())
        }
        Ask::Unpack(b, c, seed) => {
            case.label("unpack");
            let data = b.bytes();
            if data.len() > 3 {
                case.nontrivial();
            }
            let c = c % 4;
            let mut bytes = rc::enc_binary(&data, c, *seed);
            let n = bytes.len();
            // where the reference has no such form
            if !BinaryCompression::try_from(c).is_ok_and(|k| BinaryData::deser(k, &mut Cursor::new(&bytes)).is_ok_and(|x| x.0 == data)) {
                return Ok(());
            }
            bytes.push(7);
            let (got, _) = must(format!("unpack {c} {}", hex(&bytes)))?;
            ensure!(got == format!("{n} {}", hex(&data)), "{} bytes packed with {c} are read as {}", data.len(), truncate(&got, 300));
            Ok(())
        }
        Ask::Tree(a, b) => {
            case.label("tree");
            if a.is_empty() {
                return Ok(());
            }
            // only what the tree knows
            let known: Vec<char> = a.chars().collect();
            let b: String = b.chars().map(|c| known[c as usize % known.len()]).collect();
            if known.len() > 2 {
                case.nontrivial();
            }
            let (got, _) = must(format!("tree {} {}", hex(a.as_bytes()), hex(b.as_bytes())))?;
            let f: Vec<&str> = got.split(' ').collect();
            ensure!(f.len() == 3, "a tree of {a:?} for {b:?}: {got}");
            ensure!(unhex(f[2])? == b.as_bytes(), "{b:?} comes back as {:?}", String::from_utf8_lossy(&unhex(f[2])?));
            let (t, e) = (unhex(f[0])?, unhex(f[1])?);
            let t = rc::dec_char_tree(&mut rc::Rd::new(&t)).map_err(ref_err)?;
            let bits = rc::dec_bits(&mut rc::Rd::new(&e)).map_err(ref_err)?;
            let back: String = t.decode(&bits).map_err(ref_err)?.into_iter().collect();
            ensure!(back == b, "{b:?} is written such that it reads as {back:?}");
            Ok(())
        }
        Ask::Bits(parts) => {
            case.label("bits");
            let all = parts.concat();
            if all.len() > 8 {
                case.nontrivial();
            }
            let show = |b: &[bool]| b.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
            let line: Vec<String> = parts.iter().map(|p| format!(".{}", show(p))).collect();
            let (got, _) = must(format!("bits {}", line.join(" ")))?;
            let want = format!("{} {} true", show(&all), hex(&rc::enc_bits(&all)));
            ensure!(got == want, "{parts:?}: {got} instead of {want}");
            Ok(())
        }
        Ask::DamagedStore(m, seed, d, cut) => {
            let mut bytes = rc::enc_store(m, *seed);
            damage(&mut bytes, d, *cut);
            let here = Store::deser(&bytes);
            case.label(if here.is_ok() { "damaged_taken" } else { "damaged_refused" });
            case.nontrivial();
            if here.as_ref().is_ok_and(|s| s.ser().len() > 20_000) {
                return Ok(());
            }
            let Some((got, _)) = tell(format!("store {}", hex(&bytes)), false)? else { return Ok(()) };
            match here {
                Err(e) => ensure!(got == "refused", "bytes that are refused here ({e}) are taken there: {}", truncate(&hex(&bytes), 600)),
                Ok(s) => {
                    ensure!(got != "refused", "bytes that are taken here are refused there: {}", truncate(&hex(&bytes), 600));
                    let back = unhex(got.split(' ').next().unwrap_or_default())?;
                    let there = Store::deser(&back).map_err(|e| Fail::Violation(format!("what it writes cannot be read here: {e}")))?;
                    let again = Store::deser(&s.ser()).map_err(|e| harness_err!("{e}"))?;
                    let (x, y) = (model(&there)?, model(&again)?);
                    ensure!(x == y, "bytes are read there as {} and here as {}", truncate(&format!("{x:?}"), 400), truncate(&format!("{y:?}"), 400));
                }
            }
            Ok(())
        }
        Ask::DamagedValue(m, d, cut) => {
            let mut bytes = m.build().ser(None);
            damage(&mut bytes, d, *cut);
            let mut c = Cursor::new(&bytes);
            let here = Value::deser(&mut c, None);
            let n = c.pos();
            case.label(if here.is_ok() { "damaged_taken" } else { "damaged_refused" });
            case.nontrivial();
            if here.as_ref().is_ok_and(|s| s.ser(None).len() > 20_000) {
                return Ok(());
            }
            let Some((got, _)) = tell(format!("value {} .", hex(&bytes)), false)? else { return Ok(()) };
            match here {
                Err(e) => ensure!(got == "refused", "bytes that are refused here ({e}) are taken there: {}", truncate(&hex(&bytes), 600)),
                Ok(v) => {
                    ensure!(got != "refused", "bytes that are taken here are refused there: {}", truncate(&hex(&bytes), 600));
                    let f: Vec<&str> = got.split(' ').collect();
                    ensure!(f[0] == n.to_string(), "of {} bytes {n} are read here and {} there", bytes.len(), f[0]);
                    let back = unhex(f.get(1).copied().unwrap_or_default())?;
                    let there = Value::deser(&mut Cursor::new(&back), None).map_err(|e| Fail::Violation(format!("what it writes cannot be read here: {e}")))?;
                    let again = Value::deser(&mut Cursor::new(&v.ser(None)), None).map_err(|e| harness_err!("{e}"))?;
                    let (x, y) = (model_of(&there).map_err(Fail::Violation)?, model_of(&again).map_err(Fail::Violation)?);
                    ensure!(x == y, "bytes are read there as {} and here as {}", truncate(&format!("{x:?}"), 400), truncate(&format!("{y:?}"), 400));
                }
            }
            Ok(())
        }
        Ask::DamagedJson(text) => {
            let here = Store::from_json_bytes(text);
            case.label(if here.is_ok() { "json_taken" } else { "json_refused" });
            let (got, _) = must(format!("json {}", hex(text)))?;
            ensure!((got == "refused") == here.is_err(), "JSON: {got} there, {here:?} here");
            Ok(())
        }
    }
}
/// How a build without the standard library prints it, and whether its parts have an order.
fn printed(v: &MV) -> (String, bool) {
    match v {
        MV::Arr(a) => {
            let parts: Vec<(String, bool)> = a.iter().map(printed).collect();
            (format!("[{}]", parts.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(", ")), parts.iter().all(|p| p.1))
        }
        MV::Map(m) => {
            let parts: Vec<(String, bool)> = m.iter().map(|(k, v)| (k, printed(v))).map(|(k, p)| (format!("{k}: {}", p.0), p.1)).collect();
            (format!("{{{}}}", parts.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(", ")), parts.len() < 2 && parts.iter().all(|p| p.1))
        }
        o => (o.build().to_string(), true),
    }
}
fn model(s: &Store) -> Result<BTreeMap<String, MV>, Fail> {
    s.iter().map(|(k, v)| Ok((k.clone(), model_of(v).map_err(Fail::Violation)?))).collect()
}

/// Floats in JSON that its text form keeps.
fn plain_floats() -> BoxedStrategy<u64> {
    (-100_000_i32..100_000).prop_map(|i| (f64::from(i) / 8.0 + 0.0).to_bits()).boxed()
}
/// Long contents take an interpreter too long.
fn shorter(v: MV, n: usize) -> MV {
    match v {
        MV::Str(s) => MV::Str(s.chars().take(n).collect()),
        MV::Bin(b) => MV::Bin(MBin::Bytes(b.bytes().into_iter().take(n).collect())),
        MV::Arr(a) => MV::Arr(a.into_iter().map(|v| shorter(v, n)).collect()),
        MV::Map(m) => MV::Map(m.into_iter().map(|(k, v)| (k.chars().take(n).collect(), shorter(v, n))).collect()),
        MV::Json(j) => MV::Json(shorter_json(j, n)),
        o => o,
    }
}
fn shorter_json(j: MJ, n: usize) -> MJ {
    match j {
        MJ::S(s) => MJ::S(s.chars().take(n).collect()),
        MJ::A(a) => MJ::A(a.into_iter().map(|v| shorter_json(v, n)).collect()),
        MJ::O(m) => MJ::O(m.into_iter().map(|(k, v)| (k.chars().take(n).collect(), shorter_json(v, n))).collect()),
        o => o,
    }
}
/// Few and small parts.
fn tiny(v: MV, n: usize) -> MV {
    match v {
        MV::Arr(a) => MV::Arr(a.into_iter().take(n).map(|v| tiny(v, n / 2)).collect()),
        MV::Map(m) => MV::Map(m.into_iter().take(n).map(|(k, v)| (k.chars().take(8).collect(), tiny(v, n / 2))).collect()),
        MV::Json(j) => MV::Json(tiny_json(j, n)),
        MV::Rep(v, k) => MV::Rep(Box::new(tiny(*v, 1)), k % 18),
        MV::MapN(v, k) => MV::MapN(Box::new(tiny(*v, 1)), k % 11),
        MV::Deep(v, k) => MV::Deep(Box::new(tiny(*v, 2)), 1 + k % 12),
        o => shorter(o, 16),
    }
}
fn tiny_json(j: MJ, n: usize) -> MJ {
    match j {
        MJ::A(a) => MJ::A(a.into_iter().take(n).map(|v| tiny_json(v, n / 2)).collect()),
        MJ::O(m) => MJ::O(m.into_iter().take(n).map(|(k, v)| (k.chars().take(8).collect(), tiny_json(v, n / 2))).collect()),
        o => shorter_json(o, 10),
    }
}
/// The request with less in it, for an interpreter.
fn tiny_ask(a: Ask) -> Ask {
    let store = |m: MStore| m.into_iter().take(4).map(|(k, v)| (k.chars().take(8).collect(), tiny(v, 3))).collect();
    let text = |s: String| s.chars().take(16).collect::<String>();
    let bin = |b: MBin| MBin::Bytes(b.bytes().into_iter().take(48).collect());
    match a {
        Ask::Store(m, s) => Ask::Store(store(m), s),
        Ask::Value(v, t, b) => Ask::Value(tiny(v, 4), match t { TreeSrc::Text(s) => TreeSrc::Text(text(s)), TreeSrc::English => TreeSrc::Text("the mice".into()), o => o }, b),
        Ask::Json(m) => Ask::Json(m.into_iter().take(3).map(|(k, v)| (k.chars().take(8).collect(), tiny_json(v, 3))).collect()),
        Ask::Pack(b) => Ask::Pack(bin(b)),
        Ask::Unpack(b, c, s) => Ask::Unpack(bin(b), c, s),
        Ask::Tree(a, b) => Ask::Tree(text(a), text(b)),
        Ask::DamagedStore(m, s, d, c) => Ask::DamagedStore(store(m), s, d, c),
        Ask::DamagedValue(v, d, c) => Ask::DamagedValue(tiny(v, 4), d, c),
        Ask::DamagedJson(mut b) => {
            b.truncate(24);
            Ask::DamagedJson(b)
        }
        o => o,
    }
}
fn asks(limit: usize) -> BoxedStrategy<Ask> {
    let t = Tier::Quick;
    let one = move || leaf_with(t, plain_floats()).prop_map(move |v| shorter(v, limit)).boxed();
    let value = move || prop_oneof![2 => one(), 1 => mv_from(one())].boxed();
    let store = move || mstore_from(value()).prop_map(move |m| m.into_iter().map(|(k, v)| (k.chars().take(limit).collect::<String>(), v)).collect::<MStore>()).boxed();
    let small_store = move || proptest::collection::btree_map("[a-d]{1,2}", one(), 0..3);
    let bin = move || mbin(t).prop_map(move |b| MBin::Bytes(b.bytes().into_iter().take(limit).collect()));
    let txt = move || text(t).prop_map(move |s| s.chars().take(limit).collect::<String>());
    let bytes = || vec((any::<u16>(), prop_oneof![any::<u8>(), 0..4_u8, 0xf0..=0xff_u8]), 0..3);
    let cut = || prop_oneof![3 => Just(0_u16), 1 => 1..20_u16];
    prop_oneof![
        3 => (store(), any::<u64>()).prop_map(|(m, s)| Ask::Store(m, s)),
        6 => (value(), tree_src(t), vec(any::<u8>(), 0..3)).prop_map(|(v, s, t)| Ask::Value(v, s, t)),
        2 => proptest::collection::btree_map(key(), mj_with(t, plain_floats()), 0..4).prop_map(move |m| Ask::Json(m.into_iter().map(|(k, v)| (k, shorter_json(v, limit))).collect())),
        4 => num().prop_map(Ask::Int),
        1 => num().prop_map(Ask::Word),
        3 => (any::<u8>(), num(), num()).prop_map(|(o, a, b)| Ask::Calc(o, a, b)),
        2 => f64_bits().prop_map(Ask::F64),
        1 => f32_bits().prop_map(Ask::F32),
        2 => bin().prop_map(Ask::Pack),
        2 => (bin(), any::<u8>(), any::<u64>()).prop_map(|(b, c, s)| Ask::Unpack(b, c, s)),
        2 => (txt(), txt()).prop_map(|(a, b)| Ask::Tree(a, b)),
        2 => vec(vec(any::<bool>(), 0..40), 1..6).prop_map(Ask::Bits),
        2 => (small_store(), any::<u64>(), bytes(), cut()).prop_map(|(m, s, d, c)| Ask::DamagedStore(m, s, d, c)),
        3 => (value(), bytes(), cut()).prop_map(|(m, d, c)| Ask::DamagedValue(m, d, c)),
        1 => (mj_with(t, plain_floats()), bytes(), cut()).prop_map(move |(j, d, c)| {
            let mut b = shorter_json(j, limit).build().to_string().into_bytes();
            damage(&mut b, &d, c);
            Ask::DamagedJson(b)
        }),
    ]
    .boxed()
}
pub fn c29p() -> Property {
    Property {
        id: "C29",
        rule: "stores, values, JSON documents, numbers, binary data, texts, bits and damaged encodings given to the library built without optional features and to the library interpreted as a 32-bit big-endian program; what it answers against the number model, the independent codec and the same request here; non-trivial: more than one entry, byte or symbol, or a damaged encoding",
        level: "exploration",
        assumptions: &["the interpreter (Miri) computes as a machine of that kind would", "printed maps differ between builds by design", "polar conversion is left out: its last digits depend on the platform"],
        checks: vec![
            Pbt::boxed("no_features", 160_000, 1_500_000, |_| asks(600), |a, c| ask(false, a, c)),
            Pbt::boxed("big_endian_32_bit", 640, 12_000, |_| asks(60).prop_map(tiny_ask), |a, c| ask(true, a, c)),
        ],
    }
}
