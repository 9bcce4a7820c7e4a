//! C20, C21: what the daemon serves after it was stopped, killed or failed.
use crate::core::*;
use crate::daemon::*;
use crate::model::*;
use crate::p_daemon::*;
use crate::{ensure, harness_err};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;

const SETTLE: Duration = Duration::from_millis(4);

/// How a database may be found after a restart: the contents it had at some moment, or not at all.
type Maybe = Option<MStore>;

/// Reads everything the daemon serves and compares it with what may be there; answers which of
/// the alternatives it found.
fn observe(c: &mut Client, allowed: &BTreeMap<String, Vec<Maybe>>, when: &str) -> Result<Dbs, Fail> {
    let v = |m: String| Fail::Violation(format!("{when}: {m}"));
    let r = c.req("GET", "/v1/get_all_db_names", None).map_err(|e| e.fail(when))?;
    ensure!(r.status == 200, "{when}: listing the names: status {}", r.status);
    let list: Vec<String> = serde_json::from_slice(&r.body).map_err(|e| v(format!("the list of names is not JSON: {e}")))?;
    let names: BTreeSet<String> = list.iter().cloned().collect();
    ensure!(names.len() == list.len(), "{when}: a name is listed twice: {list:?}");
    let mut out = Dbs::new();
    for n in &names {
        let Some(alts) = allowed.get(n) else {
            return Err(v(format!("database {n:?} is served, but there is no such database (names {list:?})")));
        };
        let r = c.req("GET", &format!("/v1/get_db?db_name={}", enc(n)), None).map_err(|e| e.fail(when))?;
        ensure!(r.status == 200, "{when}: reading database {n:?}: status {}", r.status);
        let mut why = String::new();
        let mut hit = None;
        for a in alts.iter().flatten() {
            match store_is(a, &r.body) {
                Ok(()) => {
                    hit = Some(a.clone());
                    break;
                }
                Err(e) => why = e,
            }
        }
        match hit {
            Some(m) => out.insert(n.clone(), m),
            None if alts.iter().all(Option::is_none) => return Err(v(format!("database {n:?} was removed but is served"))),
            None => return Err(v(format!("database {n:?} is served with contents it did not have at any allowed moment ({why})"))),
        };
    }
    for (n, alts) in allowed {
        if !names.contains(n) && !alts.iter().any(Option::is_none) {
            return Err(v(format!("database {n:?} is missing (served: {list:?})")));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    /// Asked to stop (by SIGTERM, or by SIGINT), and started again.
    Stop(bool),
    /// A periodic save, and on it goes.
    Save,
    /// Killed right after a periodic save.
    SaveKill,
    /// Killed just like that.
    Kill,
    /// Asked to stop while clients are writing; file operations take so many microseconds.
    Busy { writers: u8, after_us: u16, slow_us: u16 },
    /// A periodic save while clients remove and create databases, then killed after another save.
    BusySave { slow_us: u16, rounds: u8 },
    /// A database is created again, and saved, while a slow removal of it is under way; then killed.
    RemoveRace { slow_us: u16, after_us: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    /// The directory does not exist at first.
    fresh: bool,
    segs: Vec<(Vec<Op>, End)>,
}

/// Runs a step and keeps, for every database, the states it has had since the last save.
struct Run {
    s: Dbs,
    since: BTreeMap<String, Vec<Maybe>>,
}
impl Run {
    fn saved(&mut self) {
        self.since = self.s.iter().map(|(k, v)| (k.clone(), vec![Some(v.clone())])).collect();
    }
    fn step(&mut self, c: &mut Client, i: usize, op: &Op) -> TestResult {
        step(c, &mut self.s, i, op)?;
        if let (Some(db), false) = (op.db(), op.is_read()) {
            let now = self.s.get(db).cloned();
            if now.is_some() || self.since.contains_key(db) {
                let v = self.since.entry(db.to_string()).or_insert_with(|| vec![None]);
                if v.last() != Some(&now) {
                    v.push(now);
                }
            }
        }
        Ok(())
    }
}

fn exact(s: &Dbs) -> BTreeMap<String, Vec<Maybe>> {
    s.iter().map(|(k, v)| (k.clone(), vec![Some(v.clone())])).collect()
}

fn c20(h: &Hist, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    if h.fresh {
        std::fs::remove_dir(&place.base).map_err(|e| harness_err!("{e}"))?;
        case.label("directory_created_by_the_daemon");
    }
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let mut run = Run { s: Dbs::new(), since: BTreeMap::new() };
    let mut restarts = 0;
    for (n, (ops, end)) in h.segs.iter().enumerate() {
        let mut c = Client::new(&d);
        for (i, op) in ops.iter().enumerate() {
            run.step(&mut c, i, op).map_err(|f| at(f, &format!("segment {n}")))?;
        }
        op_labels(ops, case);
        drop(c);
        let mut allowed;
        let name;
        match end {
            End::Stop(int) => {
                name = "stopped";
                d.signal(if *int { libc::SIGINT } else { libc::SIGTERM });
                let st = d.wait(Duration::from_secs(60))?;
                ensure!(st.success(), "segment {n}: asked to stop, the daemon ends with {st}");
                allowed = exact(&run.s);
            }
            End::Save => {
                case.label("save");
                ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                run.saved();
                continue;
            }
            End::SaveKill => {
                name = "killed after a save";
                ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                allowed = exact(&run.s);
            }
            End::Kill => {
                name = "killed";
                allowed = run.since.clone();
            }
            End::Busy { writers, after_us, slow_us } => {
                name = "stopped while clients write";
                let busy = "busy";
                d.set(ctl::SLOW_US, (*slow_us).into());
                let before = run.s.get(busy).cloned();
                let halt = AtomicBool::new(false);
                // keys written and acknowledged, keys perhaps written
                let res: Vec<(BTreeMap<String, u64>, Vec<String>, Option<String>)> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*writers)
                        .map(|w| {
                            let (d, halt) = (&d, &halt);
                            sc.spawn(move || {
                                let mut c = Client::new(d);
                                let mut acked = BTreeMap::new();
                                let mut open = vec![];
                                let mut bad = None;
                                for i in 0..2000_u64 {
                                    if halt.load(Ordering::SeqCst) {
                                        break;
                                    }
                                    let key = format!("s{n}w{w}i{i}");
                                    let op = Op::AddKv { db: busy.into(), key: key.clone(), create: true, over: true, val: MV::Str(i.to_string()) };
                                    let (m, t, b) = op.request();
                                    match c.req(m, &t, b.as_deref()) {
                                        Ok(r) if r.status == 200 => {
                                            acked.insert(key, i);
                                        }
                                        Ok(r) => bad = Some(format!("status {} for {}", r.status, short(&op))),
                                        Err(_) => {
                                            open.push(key);
                                            break;
                                        }
                                    }
                                }
                                (acked, open, bad)
                            })
                        })
                        .collect();
                    std::thread::sleep(Duration::from_micros((*after_us).into()));
                    d.signal(libc::SIGTERM);
                    // a connection that has ended ends its writer; the rest end with the daemon
                    let r = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
                    halt.store(true, Ordering::SeqCst);
                    r
                });
                let st = d.wait(Duration::from_secs(60))?;
                ensure!(st.success(), "segment {n}: asked to stop while clients write, the daemon ends with {st}");
                allowed = exact(&run.s);
                allowed.remove(busy);
                let mut must = before.clone().unwrap_or_default();
                let mut may = vec![];
                let mut acks = 0;
                for (acked, open, bad) in res {
                    if let Some(b) = bad {
                        return violation(format!("segment {n}: stopping: {b}"));
                    }
                    acks += acked.len();
                    must.extend(acked.into_iter().map(|(k, i)| (k, MV::Str(i.to_string()))));
                    may.extend(open);
                }
                case.label_if(acks > 0, "acknowledged_while_stopping");
                // every combination of the (few) requests that were not acknowledged
                let mut alts: Vec<Maybe> = vec![];
                for mask in 0..1_u32 << may.len().min(4) {
                    let mut m = must.clone();
                    for (j, k) in may.iter().enumerate() {
                        if mask >> j & 1 == 1 {
                            let i = k.rsplit('i').next().unwrap_or("0").to_string();
                            m.insert(k.clone(), MV::Str(i));
                        }
                    }
                    if m.is_empty() && before.is_none() {
                        alts.push(None);
                    } else {
                        alts.push(Some(m));
                    }
                }
                allowed.insert(busy.into(), alts);
            }
            End::BusySave { slow_us, rounds } => {
                name = "killed after a save that overlapped changes";
                d.set(ctl::SLOW_US, (*slow_us).into());
                let dd = &d;
                let ended: Result<Dbs, Fail> = std::thread::scope(|sc| {
                    let mut s = run.s.clone();
                    let h = sc.spawn(move || -> Result<Dbs, Fail> {
                        let mut c = Client::new(dd);
                        for r in 0..*rounds {
                            let key = format!("r{r}");
                            for (i, op) in [
                                Op::AddKv { db: "turn".into(), key, create: true, over: true, val: MV::Str(r.to_string()) },
                                Op::RmDb { db: "turn".into() },
                                Op::AddDb { db: "turn".into(), over: false },
                                Op::AddKv { db: "turn".into(), key: "k".into(), create: false, over: true, val: MV::Str(r.to_string()) },
                            ]
                            .iter()
                            .enumerate()
                            {
                                step(&mut c, &mut s, i, op)?;
                            }
                        }
                        Ok(s)
                    });
                    for _ in 0..4 {
                        dd.pass_time();
                        std::thread::sleep(Duration::from_micros(u64::from(*slow_us) * 3 + 300));
                    }
                    h.join().unwrap_or_else(|_| Err(harness_err!("thread")))
                });
                run.s = ended.map_err(|f| at(f, &format!("segment {n}: while saving")))?;
                ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                allowed = exact(&run.s);
            }
            End::RemoveRace { slow_us, after_us } => {
                name = "killed after a save that overlapped a removal";
                let turn = || "turn".to_string();
                let mut c = Client::new(&d);
                run.step(&mut c, 0, &Op::AddKv { db: turn(), key: "old".into(), create: true, over: true, val: MV::Null })?;
                ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                d.set(ctl::SLOW_KIND, ctl::UNLINK);
                d.set(ctl::SLOW_US, u64::from(*slow_us) + 1);
                let dd = &d;
                let mut saved = false;
                let added: Result<Rsp, Fail> = std::thread::scope(|sc| {
                    let (m, t, _) = Op::RmDb { db: turn() }.request();
                    let h = sc.spawn(move || Client::new(dd).req(m, &t, None));
                    std::thread::sleep(Duration::from_micros((*after_us).into()));
                    let (m, t, b) = Op::AddKv { db: turn(), key: "k".into(), create: true, over: true, val: MV::Str("new".into()) }.request();
                    let added = c.req(m, &t, b.as_deref()).map_err(|e| e.fail("adding a key while its database is removed"));
                    if !h.is_finished() {
                        // a save that does not wait for the removal
                        let ops = dd.get(ctl::OPS);
                        dd.pass_time();
                        dd.set(ctl::IDLE, 0);
                        for _ in 0..400 {
                            if h.is_finished() {
                                break;
                            }
                            let now = dd.get(ctl::OPS);
                            if now != ops && dd.get(ctl::IDLE) >= 4 && dd.get(ctl::BUSY) <= 1 {
                                std::thread::sleep(SETTLE);
                                if dd.get(ctl::OPS) == now && dd.get(ctl::IDLE) >= 4 {
                                    saved = !h.is_finished();
                                    break;
                                }
                            }
                            std::thread::sleep(Duration::from_micros(500));
                        }
                        case.label_if(saved, "saved_before_the_removal_ended");
                    }
                    let rm = h.join().map_err(|_| harness_err!("thread"))?.map_err(|e| e.fail("removing a database"))?;
                    ensure!(rm.status == 200, "segment {n}: removing a database: status {}", rm.status);
                    added
                });
                let added = added?;
                let want = |s: &str| added.body == format!("{s:?}").as_bytes();
                let had = run.s.remove("turn").is_some_and(|t| t.contains_key("k"));
                if want("InsertedKeyIntoNewDB") {
                    run.s.insert(turn(), MStore::from([("k".into(), MV::Str("new".into()))]));
                } else {
                    ensure!(want(if had { "OverwroteKeyInExistingDB" } else { "InsertedKeyIntoExistingDB" }), "segment {n}: adding a key: {}", String::from_utf8_lossy(&added.body));
                }
                allowed = exact(&run.s);
                if !saved {
                    d.set(ctl::SLOW_US, 0);
                    ensure!(d.save(SETTLE)?, "segment {n}: the daemon ended while saving");
                }
            }
        }
        d.set(ctl::SLOW_US, 0);
        case.label(match end {
            End::Stop(false) => "sigterm",
            End::Stop(true) => "sigint",
            End::Save => "save",
            End::SaveKill => "save_then_kill",
            End::Kill => "kill",
            End::Busy { .. } => "sigterm_while_writing",
            End::BusySave { .. } => "save_while_writing",
            End::RemoveRace { .. } => "save_while_removing",
        });
        d.kill();
        restarts += 1;
        d = Daemon::start(&place).map_err(|e| at(e.fail(), &format!("segment {n}, {name}")))?;
        let mut c = Client::new(&d);
        let got = observe(&mut c, &allowed, &format!("segment {n}, {name} and started again"))?;
        run.s = got;
        run.saved();
        audit(&mut c, &run.s, &format!("segment {n}, {name} and started again"))?;
    }
    if restarts > 0 && h.segs.iter().any(|(o, _)| o.iter().any(|o| !o.is_read())) {
        case.nontrivial();
    }
    ensure!(d.alive(), "the daemon ended");
    Ok(())
}
fn end() -> BoxedStrategy<End> {
    prop_oneof![
        4 => any::<bool>().prop_map(End::Stop),
        3 => Just(End::Save),
        3 => Just(End::SaveKill),
        2 => Just(End::Kill),
    ]
    .boxed()
}
fn spell(v: &Vocab, segs: Vec<(Vec<Op>, End)>) -> Vec<(Vec<Op>, End)> {
    segs.into_iter().map(|(ops, end)| (respell(v, ops), end)).collect()
}
fn respell(v: &Vocab, ops: Vec<Op>) -> Vec<Op> {
    ops.into_iter().map(|o| v.op(o)).collect()
}
fn hist(t: Tier) -> BoxedStrategy<Hist> {
    (prop::bool::weighted(0.2), vocab(), vec((vec(dop(t, dbname), 0..9), end()), 1..6)).prop_map(|(fresh, v, segs)| Hist { fresh, segs: spell(&v, segs) }).boxed()
}
/// Few databases and keys, and saves after nearly every change.
fn narrow(_: Tier) -> BoxedStrategy<Hist> {
    let get = prop::sample::select(vec!["a", "b", "c"]).prop_map(|db| Op::GetDb { db: db.into() });
    let op = prop_oneof![5 => pop(), 3 => get];
    let end = prop_oneof![6 => Just(End::Save), 2 => Just(End::SaveKill), 1 => Just(End::Kill), 1 => any::<bool>().prop_map(End::Stop)];
    vec((vec(op, 1..5), end), 3..9).prop_map(|segs| Hist { fresh: false, segs }).boxed()
}
/// Large values, or very many databases: the stops are orderly, because nothing says when so large a save is done.
fn large(t: Tier) -> BoxedStrategy<Hist> {
    let ops = prop_oneof![3 => heavy_ops(t, 3_000_000), 1 => crowd(t)];
    vec((ops, any::<bool>().prop_map(End::Stop)), 1..3).prop_map(|segs| Hist { fresh: false, segs }).boxed()
}
fn busy(t: Tier) -> BoxedStrategy<Hist> {
    let end = prop_oneof![
        3 => (1..4_u8, 0..8000_u16, prop_oneof![Just(0_u16), 500..4000_u16]).prop_map(|(writers, after_us, slow_us)| End::Busy { writers, after_us, slow_us }),
        2 => (0..3000_u16, 1..6_u8).prop_map(|(slow_us, rounds)| End::BusySave { slow_us, rounds }),
        2 => (prop_oneof![1 => Just(0_u16), 3 => 5_000..40_000_u16], 0..6000_u16).prop_map(|(slow_us, after_us)| End::RemoveRace { slow_us, after_us }),
    ];
    (vocab(), vec((vec(dop(t, dbname), 0..4), end), 1..3)).prop_map(|(v, segs)| Hist { fresh: false, segs: spell(&v, segs) }).boxed()
}
pub fn c20p() -> Property {
    Property {
        id: "C20",
        rule: "histories of up to five segments of requests, each ended by an orderly stop, a periodic save, a kill, or a stop under load (some with values of several megabytes or very many databases), then a restart and a comparison of everything served; non-trivial: the daemon was restarted after a change",
        level: "exploration",
        assumptions: &["a preloaded shim stops the daemon's clock and moves it on eleven seconds for each save", "a kill ends the process, not the machine: the page cache survives"],
        checks: vec![Pbt::boxed_shards("restarts", 800, 16_000, 8, 200, hist, c20), Pbt::boxed_shards("saves", 300, 6_000, 8, 200, narrow, c20), Pbt::boxed_shards("large", 32, 600, 8, 40, large, c20), Pbt::boxed_shards("under_load", 160, 3_000, 6, 40, busy, c20)],
    }
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faulty {
    before: Vec<Op>,
    after: Vec<Op>,
    /// Which faults to try: all of them, or those picked by these numbers.
    picks: Option<Vec<u32>>,
}
const MODES: [(u64, bool, &str); 9] = [
    (fault::CRASH_BEFORE, false, "crash_before"),
    (fault::CRASH_AFTER, false, "crash_after"),
    (fault::CRASH_MID, false, "crash_midway"),
    (fault::FAIL_NOSPC, false, "no_space_once"),
    (fault::FAIL_NOSPC, true, "no_space_from_then_on"),
    (fault::FAIL_IO, false, "io_error_once"),
    (fault::FAIL_IO, true, "io_errors_from_then_on"),
    (fault::SHORT_WRITE, false, "short_write"),
    (fault::SHORT_WRITE, true, "short_writes"),
];

fn copy_base(from: &Path, to: &Place) -> TestResult {
    for e in std::fs::read_dir(from).map_err(|e| harness_err!("{e}"))?.flatten() {
        let dest: PathBuf = to.base.join(e.file_name());
        std::fs::copy(e.path(), &dest).map_err(|e| harness_err!("{e}"))?;
        give(&dest);
    }
    Ok(())
}

fn after_states(a: &Dbs, b: &Dbs, ops: &[Op]) -> BTreeMap<String, Vec<Maybe>> {
    let removed: BTreeSet<&str> = ops.iter().filter_map(|o| if let Op::RmDb { db } = o { Some(db.as_str()) } else { None }).collect();
    let mut m: BTreeMap<String, Vec<Maybe>> = BTreeMap::new();
    for n in a.keys().chain(b.keys()) {
        let mut v: Vec<Maybe> = vec![];
        match (a.get(n), b.get(n)) {
            (Some(x), Some(y)) => {
                v.push(Some(x.clone()));
                v.push(Some(y.clone()));
                if removed.contains(n.as_str()) {
                    v.push(None);
                }
            }
            (x, y) => {
                v.push(None);
                v.extend([x.cloned(), y.cloned()].into_iter().filter(Option::is_some));
            }
        }
        m.insert(n.clone(), v);
    }
    m
}

fn c21(f: &Faulty, case: &mut Case) -> TestResult {
    // the saved state, and how many file operations the save after it takes
    let first = Place::new()?;
    let mut d = Daemon::start(&first).map_err(StartError::fail)?;
    let mut c = Client::new(&d);
    let mut a = Dbs::new();
    for (i, op) in f.before.iter().enumerate() {
        step(&mut c, &mut a, i, op)?;
    }
    ensure!(d.save(SETTLE)?, "the daemon ended while saving");
    let saved = Place::new()?;
    copy_base(&first.base, &saved)?;
    let mut b = a.clone();
    for (i, op) in f.after.iter().enumerate() {
        step(&mut c, &mut b, i, op)?;
    }
    let ops0 = d.get(ctl::OPS);
    ensure!(d.save(SETTLE)?, "the daemon ended while saving");
    let n = d.get(ctl::OPS) - ops0;
    drop(c);
    d.kill();
    drop(first);
    let all: Vec<(u64, usize)> = (1..=n).flat_map(|k| (0..MODES.len()).map(move |m| (k, m))).collect();
    let todo: Vec<(u64, usize)> = match &f.picks {
        None => all,
        Some(p) => p.iter().filter_map(|x| all.get(*x as usize % all.len().max(1)).copied()).collect(),
    };
    let changed = a.iter().any(|(k, v)| b.get(k).is_some_and(|w| w != v));
    case.label_if(changed, "saved_database_changed");
    case.label_if(a.keys().any(|k| !b.contains_key(k)), "saved_database_removed");
    case.label_if(b.keys().any(|k| !a.contains_key(k)), "new_database");
    if changed || a.len() >= 2 {
        case.nontrivial();
    }
    let allowed = after_states(&a, &b, &f.after);
    for (k, m) in todo {
        let (mode, sticky, name) = MODES[m];
        let what = format!("{name} at file operation {k} of {n} of a save");
        let place = Place::new()?;
        copy_base(&saved.base, &place)?;
        let mut d = Daemon::start(&place).map_err(StartError::fail)?;
        let mut c = Client::new(&d);
        let mut s = a.clone();
        for (i, op) in f.after.iter().enumerate() {
            step(&mut c, &mut s, i, op).map_err(|f| at(f, "after a restart"))?;
        }
        d.arm(k, mode, sticky);
        let alive = d.save(SETTLE)?;
        let hit = d.get(ctl::HIT) > 0;
        d.disarm();
        if hit {
            case.label(name);
        }
        let crash = matches!(mode, fault::CRASH_BEFORE | fault::CRASH_AFTER | fault::CRASH_MID);
        if !alive {
            ensure!(crash && hit, "{what}: the daemon ended");
            drop(c);
            d.kill();
            let mut d = Daemon::start(&place).map_err(|e| at(e.fail(), &what))?;
            let mut c = Client::new(&d);
            let got = observe(&mut c, &allowed, &format!("{what}, then started again"))?;
            // and it goes on from there
            if (k as usize + m) % 4 == 0 {
                ensure!(d.save(SETTLE)?, "{what}: the restarted daemon ended while saving");
                drop(c);
                d.kill();
                let d = Daemon::start(&place).map_err(|e| at(e.fail(), &what))?;
                observe(&mut Client::new(&d), &exact(&got), &format!("{what}, then started, saved and started again"))?;
                d.kill();
            }
            continue;
        }
        // what the failed save left on disk, for a daemon started now
        if hit {
            let copy = Place::new()?;
            copy_base(&place.base, &copy)?;
            let d2 = Daemon::start(&copy).map_err(|e| at(e.fail(), &format!("{what}, then killed")))?;
            let ok = if mode == fault::SHORT_WRITE { exact(&b) } else { allowed.clone() };
            observe(&mut Client::new(&d2), &ok, &format!("{what}, then killed and started again"))?;
            d2.kill();
        }
        // what it still holds, and what the next good save keeps
        audit(&mut c, &b, &format!("{what}, memory"))?;
        ensure!(d.save(SETTLE)?, "{what}: the daemon ended at the next save");
        drop(c);
        d.kill();
        let d = Daemon::start(&place).map_err(|e| at(e.fail(), &what))?;
        observe(&mut Client::new(&d), &exact(&b), &format!("{what}, then a good save, killed and started again"))?;
        d.kill();
    }
    Ok(())
}
fn small_val() -> BoxedStrategy<MV> {
    prop_oneof![
        4 => any::<u8>().prop_map(|b| MV::Str(format!("v{b}"))),
        1 => (any::<u64>(), 0..5000_u32).prop_map(|(s, n)| MV::Bin(MBin::Bytes(MBin::Noise(s, n).bytes()))),
    ]
    .boxed()
}
fn pop() -> BoxedStrategy<Op> {
    let db = || prop::sample::select(vec!["a", "b", "c"]).prop_map(String::from);
    let key = || prop::sample::select(vec!["k", "l"]).prop_map(String::from);
    prop_oneof![
        2 => (db(), any::<bool>()).prop_map(|(db, over)| Op::AddDb { db, over }),
        2 => (db(), any::<bool>(), proptest::collection::btree_map(key(), small_val(), 0..3)).prop_map(|(db, over, with)| Op::Fill { db, over, with }),
        1 => db().prop_map(|db| Op::Clear { db }),
        2 => db().prop_map(|db| Op::RmDb { db }),
        6 => (db(), key(), small_val()).prop_map(|(db, key, val)| Op::AddKv { db, key, create: true, over: true, val }),
        1 => (db(), key()).prop_map(|(db, key)| Op::RmKv { db, key }),
    ]
    .boxed()
}
fn every(_: Tier) -> BoxedStrategy<Faulty> {
    (vocab(), vec(pop(), 1..5), vec(pop(), 1..4)).prop_map(|(v, before, after)| Faulty { before: respell(&v, before), after: respell(&v, after), picks: None }).boxed()
}
fn sampled(_: Tier) -> BoxedStrategy<Faulty> {
    (vocab(), vec(pop(), 1..8), vec(pop(), 0..8), vec(any::<u32>(), 6..10)).prop_map(|(v, before, after, picks)| Faulty { before: respell(&v, before), after: respell(&v, after), picks: Some(picks) }).boxed()
}
pub fn c21p() -> Property {
    Property {
        id: "C21",
        rule: "histories with a completed save, further requests, and a save in which one file operation crashes the daemon (before, after, in the middle) or fails (no space, I/O error, short write; once or from then on), at every file operation of that save or at sampled ones; non-trivial: at least two databases had been saved, or one that changed since",
        level: "fault_enumeration",
        assumptions: &["file operations reach the disk in the order they are made (no reordering of unsynced pages)", "one fault at a time, except for the modes that keep failing"],
        checks: vec![Pbt::boxed_shards("every_point", 16, 400, 8, 40, every, c21), Pbt::boxed_shards("sampled_points", 160, 4_000, 8, 60, sampled, c21)],
    }
}
