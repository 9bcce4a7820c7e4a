//! C18, C20-C23: the real daemon against a map of maps.
use crate::core::*;
use crate::daemon::*;
use crate::model::*;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type Dbs = BTreeMap<String, MStore>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    AddDb { db: String, over: bool },
    Fill { db: String, over: bool, with: MStore },
    Clear { db: String },
    RmDb { db: String },
    AddKv { db: String, key: String, create: bool, over: bool, val: MV },
    RmKv { db: String, key: String },
    GetDb { db: String },
    GetKv { db: String, key: String },
    Names,
}
impl Op {
    pub fn db(&self) -> Option<&str> {
        match self {
            Op::AddDb { db, .. } | Op::Fill { db, .. } | Op::Clear { db } | Op::RmDb { db } | Op::AddKv { db, .. } | Op::RmKv { db, .. } | Op::GetDb { db } | Op::GetKv { db, .. } => Some(db),
            Op::Names => None,
        }
    }
    pub fn is_read(&self) -> bool {
        matches!(self, Op::GetDb { .. } | Op::GetKv { .. } | Op::Names)
    }
    /// Method, target and body of the request.
    pub fn request(&self) -> (&'static str, String, Option<Vec<u8>>) {
        match self {
            Op::AddDb { db, over } => ("POST", format!("/v1/add_db?db_name={}&overwrite_existing={over}", enc(db)), None),
            Op::Fill { db, over, with } => ("PUT", format!("/v1/add_db_with_content?overwrite_existing={over}&db_name={}", enc(db)), Some(build_store(with).ser())),
            Op::Clear { db } => ("POST", format!("/v1/clear_db?db_name={}", enc(db)), None),
            Op::RmDb { db } => ("POST", format!("/v1/rm_db?db_name={}", enc(db)), None),
            Op::AddKv { db, key, create, over, val } => {
                ("PUT", format!("/v1/add_kv?db_name={}&key={}&create_new_database={create}&overwrite_key={over}", enc(db), enc(key)), Some(val.build().ser(None)))
            }
            Op::RmKv { db, key } => ("POST", format!("/v1/rm_kv?db_name={}&key={}", enc(db), enc(key)), None),
            Op::GetDb { db } => ("GET", format!("/v1/get_db?db_name={}", enc(db)), None),
            Op::GetKv { db, key } => ("GET", format!("/v1/get_value?db_name={}&key={}", enc(db), enc(key)), None),
            Op::Names => ("GET", "/v1/get_all_db_names".into(), None),
        }
    }
}

/// What an operation answers.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Status(u16),
    Created(String),
    Db(MStore),
    Val(MV),
    Names(BTreeSet<String>),
}

/// A name a database can be kept under: ASCII, not reserved, a file name once `.sdb` is added.
pub fn storable(name: &str) -> bool {
    name.is_ascii() && name != "meta" && !name.contains('/') && !name.contains('\0') && name.len() + 4 <= 255
}

/// The specification: applies an operation to the map of maps and says what must be answered.
pub fn apply(s: &mut Dbs, op: &Op) -> Ans {
    let bad = Ans::Status(400);
    let gone = Ans::Status(410);
    let ok = Ans::Status(200);
    match op {
        Op::AddDb { db, over } => {
            if !storable(db) {
                return bad;
            }
            match s.get_mut(db) {
                Some(d) => {
                    if *over {
                        d.clear();
                    }
                    ok
                }
                None => {
                    s.insert(db.clone(), MStore::new());
                    Ans::Status(201)
                }
            }
        }
        Op::Fill { db, over, with } => {
            if !storable(db) {
                return bad;
            }
            let existed = s.contains_key(db);
            let d = s.entry(db.clone()).or_default();
            if *over {
                d.clear();
            }
            d.extend(with.clone());
            if existed { ok } else { Ans::Status(201) }
        }
        Op::Clear { db } => match s.get_mut(db) {
            Some(d) => {
                d.clear();
                ok
            }
            None => gone,
        },
        Op::RmDb { db } => {
            if s.remove(db).is_some() { ok } else { gone }
        }
        Op::AddKv { db, key, create, over, val } => Ans::Created(
            match s.get_mut(db) {
                Some(d) => match d.get_mut(key) {
                    Some(v) if *over => {
                        *v = val.clone();
                        "OverwroteKeyInExistingDB"
                    }
                    Some(_) => "FoundExistingKey",
                    None => {
                        d.insert(key.clone(), val.clone());
                        "InsertedKeyIntoExistingDB"
                    }
                },
                None if *create && !storable(db) => return bad,
                None if *create => {
                    s.insert(db.clone(), MStore::from([(key.clone(), val.clone())]));
                    "InsertedKeyIntoNewDB"
                }
                None => "UnableToFindDB",
            }
            .into(),
        ),
        Op::RmKv { db, key } => match s.get_mut(db) {
            Some(d) => {
                if d.remove(key).is_some() { ok } else { bad }
            }
            None => gone,
        },
        Op::GetDb { db } => s.get(db).map_or(gone, |d| Ans::Db(d.clone())),
        Op::GetKv { db, key } => match s.get(db) {
            Some(d) => d.get(key).map_or(bad, |v| Ans::Val(v.clone())),
            None => gone,
        },
        Op::Names => Ans::Names(s.keys().cloned().collect()),
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    truncate(&format!("{t:?}"), 400)
}
pub fn store_is(want: &MStore, body: &[u8]) -> Result<(), String> {
    let got = Store::deser(body).map_err(|e| format!("the database served is not a store: {e}"))?;
    same_store(want, &got, &mut Tolerance::default())
}
/// Is this answer the one wanted?
pub fn check_answer(want: &Ans, r: &Rsp) -> Result<(), String> {
    let ok = |n: u16| if r.status == n { Ok(()) } else { Err(format!("status {} instead of {n} ({})", r.status, truncate(&String::from_utf8_lossy(&r.body), 120))) };
    match want {
        Ans::Status(n) => ok(*n),
        Ans::Created(w) => {
            ok(200)?;
            let got: serde_json::Value = serde_json::from_slice(&r.body).map_err(|e| format!("the answer is not JSON: {e}"))?;
            if got == serde_json::Value::String(w.clone()) { Ok(()) } else { Err(format!("answer {got} instead of {w}")) }
        }
        Ans::Db(m) => {
            ok(200)?;
            store_is(m, &r.body)
        }
        Ans::Val(v) => {
            ok(200)?;
            let got = Value::deser(&mut Cursor::new(&r.body), None).map_err(|e| format!("the value served cannot be read: {e}"))?;
            same(v, &got, "value", &mut Tolerance::default())
        }
        Ans::Names(n) => {
            ok(200)?;
            let got: Vec<String> = serde_json::from_slice(&r.body).map_err(|e| format!("the list of names is not a JSON list: {e}"))?;
            let set: BTreeSet<String> = got.iter().cloned().collect();
            if set.len() == got.len() && set == *n { Ok(()) } else { Err(format!("names {got:?} instead of {n:?}")) }
        }
    }
}
pub fn step(c: &mut Client, s: &mut Dbs, i: usize, op: &Op) -> TestResult {
    let (m, t, b) = op.request();
    let want = apply(s, op);
    let r = c.req(m, &t, b.as_deref()).map_err(|e| e.fail(&format!("step {i} {}", short(op))))?;
    check_answer(&want, &r).or_else(|e| violation(format!("step {i} {}: {e}", short(op))))
}
/// Everything the daemon serves is what the model holds.
pub fn audit(c: &mut Client, s: &Dbs, when: &str) -> TestResult {
    let mut s2 = s.clone();
    step(c, &mut s2, 0, &Op::Names).map_err(|f| at(f, when))?;
    for (db, m) in s {
        step(c, &mut s2, 0, &Op::GetDb { db: db.clone() }).map_err(|f| at(f, when))?;
        for key in m.keys().take(4) {
            step(c, &mut s2, 0, &Op::GetKv { db: db.clone(), key: key.clone() }).map_err(|f| at(f, when))?;
        }
    }
    Ok(())
}
pub fn at(f: Fail, when: &str) -> Fail {
    match f {
        Fail::Violation(m) => Fail::Violation(format!("{when}: {m}")),
        o => o,
    }
}

// ---------------------------------------------------------------- generators
/// Values whose JSON parts hold no floats (see the known finding about them).
pub fn dleaf(t: Tier) -> BoxedStrategy<MV> {
    leaf(t).prop_map(|v| if v.any(&|x| matches!(x, MV::Json(_))) { MV::Json(MJ::S("j".into())) } else { v }).boxed()
}
pub fn dval(t: Tier) -> BoxedStrategy<MV> {
    prop_oneof![
        5 => prop_oneof![any::<u8>().prop_map(|b| MV::Str(format!("v{b}"))), any::<bool>().prop_map(MV::Bool)],
        2 => dleaf(t),
        1 => mv_from(dleaf(t)),
    ]
    .boxed()
}
pub fn dbname() -> BoxedStrategy<String> {
    prop_oneof![
        8 => prop::sample::select(vec!["a", "b", "c"]).prop_map(String::from),
        1 => prop::sample::select(vec!["meta2", "Meta", "a.sdb", "a b", "%61", "a+b", "a&b=c", "", ".", "..", "a#?", "\u{7f}", "save", "x.tmp"]).prop_map(String::from),
    ]
    .boxed()
}
/// Names that include some that cannot be used.
pub fn any_dbname() -> BoxedStrategy<String> {
    prop_oneof![20 => dbname(), 1 => prop::sample::select(vec!["meta", "é", "數"]).prop_map(String::from)].boxed()
}
pub fn dkey() -> BoxedStrategy<String> {
    prop_oneof![
        8 => prop::sample::select(vec!["k", "l", "m", "n"]).prop_map(String::from),
        1 => key(),
        1 => prop::sample::select(vec!["", "a&b", "a=b", "a+b", "a b", "%41", "é", "\u{0}", "k\n", "#", "?"]).prop_map(String::from),
    ]
    .boxed()
}
pub fn dstore(t: Tier) -> BoxedStrategy<MStore> {
    prop_oneof![
        3 => proptest::collection::btree_map(dkey(), dval(t), 0..5),
        1 => mstore_from(mv_from(dleaf(t))),
    ]
    .boxed()
}
pub fn dop(t: Tier, names: fn() -> BoxedStrategy<String>) -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (names(), any::<bool>()).prop_map(|(db, over)| Op::AddDb { db, over }),
        3 => (names(), any::<bool>(), dstore(t)).prop_map(|(db, over, with)| Op::Fill { db, over, with }),
        1 => names().prop_map(|db| Op::Clear { db }),
        2 => names().prop_map(|db| Op::RmDb { db }),
        8 => (names(), dkey(), any::<bool>(), any::<bool>(), dval(t)).prop_map(|(db, key, create, over, val)| Op::AddKv { db, key, create, over, val }),
        3 => (names(), dkey()).prop_map(|(db, key)| Op::RmKv { db, key }),
        6 => names().prop_map(|db| Op::GetDb { db }),
        3 => (names(), dkey()).prop_map(|(db, key)| Op::GetKv { db, key }),
        1 => Just(Op::Names),
    ]
    .boxed()
}
/// Values of up to `max` bytes; half of them around or beyond the body size that servers allow by default.
pub fn heavy_val(max: u32) -> BoxedStrategy<MV> {
    let noise = |r: std::ops::Range<u32>| (any::<u64>(), r).prop_map(|(s, n)| MV::Bin(MBin::Noise(s, n)));
    prop_oneof![
        2 => noise(2_097_000..2_097_200),
        2 => noise(2_200_000..max),
        1 => (1_u32..0x0011_0000, 700_000..max / 4).prop_map(|(c, n)| MV::Str((0..n).filter_map(|i| char::from_u32((c + i * 7 % 211) % 0x0011_0000)).collect())),
        4 => big_mv().prop_map(|v| if v.any(&|x| matches!(x, MV::Json(_))) { MV::Json(MJ::S("j".repeat(70_000))) } else { v }),
    ]
    .boxed()
}
/// Short histories in which many values are large.
pub fn heavy_ops(t: Tier, max: u32) -> BoxedStrategy<Vec<Op>> {
    vec((dop(t, dbname), proptest::option::weighted(0.6, heavy_val(max))), 1..7)
        .prop_map(|ops| {
            ops.into_iter()
                .map(|(mut op, heavy)| {
                    if let Some(h) = heavy {
                        match &mut op {
                            Op::AddKv { val, create, .. } => {
                                *val = h;
                                *create = true;
                            }
                            Op::Fill { with, .. } => {
                                with.insert("h".into(), h);
                            }
                            _ => {}
                        }
                    }
                    op
                })
                .collect()
        })
        .boxed()
}
/// Long histories on very many databases.
pub fn crowd(t: Tier) -> BoxedStrategy<Vec<Op>> {
    (5..150_u32)
        .prop_flat_map(move |n| {
            vec((dop(t, || Just("a".to_string()).boxed()), 0..n), 100..400).prop_map(|ops| {
                ops.into_iter()
                    .map(|(mut op, i)| {
                        match &mut op {
                            Op::AddDb { db, .. } | Op::Clear { db } | Op::RmDb { db } | Op::GetDb { db } | Op::AddKv { db, .. } | Op::RmKv { db, .. } | Op::GetKv { db, .. } | Op::Fill { db, .. } => *db = format!("d{i}"),
                            Op::Names => {}
                        }
                        op
                    })
                    .collect()
            })
        })
        .boxed()
}
/// What the plain names of a history stand for: now and then for names that are easily taken for one another.
#[derive(Clone, Debug)]
pub struct Vocab {
    keys: Vec<String>,
    dbs: Vec<String>,
}
impl Vocab {
    fn say(plain: &[&str], to: &[String], s: &mut String) {
        if let Some(i) = plain.iter().position(|p| p == s) {
            s.clone_from(&to[i]);
        }
    }
    pub fn db(&self, s: &mut String) {
        Self::say(&["a", "b", "c"], &self.dbs, s);
    }
    fn key(&self, s: &mut String) {
        Self::say(&["k", "l", "m", "n"], &self.keys, s);
    }
    pub fn op(&self, mut o: Op) -> Op {
        match &mut o {
            Op::AddDb { db, .. } | Op::Clear { db } | Op::RmDb { db } | Op::GetDb { db } => self.db(db),
            Op::AddKv { db, key, .. } | Op::RmKv { db, key } | Op::GetKv { db, key } => {
                self.db(db);
                self.key(key);
            }
            Op::Fill { db, with, .. } => {
                self.db(db);
                *with = std::mem::take(with)
                    .into_iter()
                    .map(|(mut k, v)| {
                        self.key(&mut k);
                        (k, v)
                    })
                    .collect();
            }
            Op::Names => {}
        }
        o
    }
}
pub fn vocab() -> BoxedStrategy<Vocab> {
    let long = |n: usize, end: &str| format!("{}{end}", "x".repeat(n));
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let keys = vec![
        own(&["k", " k", "k ", "K"]),
        own(&["", " ", "  ", "\t"]),
        own(&["\u{0}", "\u{0}\u{0}", "k\u{0}", "k"]),
        own(&["é", "e\u{301}", "É", "e"]),
        own(&["a+b", "a b", "a%20b", "a%2Bb"]),
        own(&["1", "01", "1.0", "+1"]),
        own(&["null", "true", "JSON", "undefined"]),
        own(&["a&key=b", "a", "a&", "a;b"]),
        own(&["a/b", "a", "a\\b", "a//b"]),
        own(&["a\nb", "a\r\nb", "ab", "a\n"]),
        own(&["%", "%25", "%2", "%%"]),
        own(&["souris_type", "existing_dbs", "meta", "db_name"]),
        vec![long(255, ""), long(256, ""), long(4000, ""), long(4000, "y")],
    ];
    let dbs = vec![
        own(&["a", " a", "a "]),
        own(&["a", "A", "aA"]),
        own(&["a", "a.sdb", "a.sdb.sdb"]),
        own(&["a", "a.tmp", "a~"]),
        own(&["a b", "a_b", "a+b"]),
        own(&["a b", "a%20b", "a-b"]),
        own(&["", " ", "  "]),
        own(&[".", "..", "..."]),
        own(&["meta.sdb", "META", "meta "]),
        own(&["save.tmp", "save", "tmp"]),
        own(&["a\n", "a", "a\r\n"]),
        own(&["con", "a:b", "a*"]),
        own(&["existing_dbs", "null", "1"]),
        vec![long(251, ""), long(250, "y"), long(250, "")],
    ];
    let plain = |v: &[&str]| own(v);
    (
        prop_oneof![3 => Just(plain(&["k", "l", "m", "n"])), 2 => prop::sample::select(keys)],
        prop_oneof![3 => Just(plain(&["a", "b", "c"])), 2 => prop::sample::select(dbs)],
    )
        .prop_map(|(keys, dbs)| Vocab { keys, dbs })
        .boxed()
}
pub fn op_labels(ops: &[Op], case: &mut Case) {
    for o in ops {
        case.label(match o {
            Op::AddDb { over: false, .. } => "add_db",
            Op::AddDb { over: true, .. } => "add_db_overwriting",
            Op::Fill { over: false, .. } => "fill_merging",
            Op::Fill { over: true, .. } => "fill_replacing",
            Op::Clear { .. } => "clear",
            Op::RmDb { .. } => "remove_db",
            Op::AddKv { create: true, .. } => "add_key_creating",
            Op::AddKv { .. } => "add_key",
            Op::RmKv { .. } => "remove_key",
            Op::GetDb { .. } => "get_db",
            Op::GetKv { .. } => "get_value",
            Op::Names => "names",
        });
    }
}

// ---------------------------------------------------------------- C18
fn c18(ops: &Vec<Op>, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let mut c = Client::new(&d);
    let mut s = Dbs::new();
    op_labels(ops, case);
    let mut read = BTreeSet::new();
    let mut stale_chance = false;
    for (i, op) in ops.iter().enumerate() {
        step(&mut c, &mut s, i, op)?;
        if let Op::GetDb { db } = op {
            read.insert(db.clone());
        } else if !op.is_read() && op.db().is_some_and(|d| read.contains(d)) {
            stale_chance = true;
        }
    }
    case.label_if(stale_chance, "changed_after_whole_read");
    if stale_chance || ops.len() >= 8 {
        case.nontrivial();
    }
    audit(&mut c, &s, "after the history")?;
    ensure!(d.alive(), "the daemon ended");
    Ok(())
}
pub fn c18p() -> Property {
    Property {
        id: "C18",
        rule: "histories of up to 30 requests of every route on a few databases and keys (and odd names), each answer compared with a map of maps, and everything read back at the end; short histories with values of up to 6 MB, and long ones over up to 150 databases; non-trivial: a database changed after it had been read whole, or at least eight requests",
        level: "exploration",
        assumptions: &["one client at a time", "a preloaded shim gives the daemon a port of the kernel's choosing and stops its clock, so that no save interferes"],
        checks: vec![
            Pbt::boxed_shards("history", 2_400, 60_000, 8, 400, |t| (vocab(), vec(dop(t, any_dbname), 1..30)).prop_map(|(v, ops)| ops.into_iter().map(|o| v.op(o)).collect()).boxed(), c18),
            Pbt::boxed_shards("large_values", 96, 1_500, 8, 60, |t| heavy_ops(t, 6_000_000), c18),
            Pbt::boxed_shards("crowd", 48, 1_500, 8, 200, crowd, c18),
        ],
    }
}
