//! C19: concurrent clients of the real daemon; the recorded history must have a linearization.
use crate::core::*;
use crate::daemon::*;
use crate::harness_err;
use crate::model::*;
use crate::p_daemon::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::collections::{BTreeMap, HashSet};
use std::sync::Barrier;
use std::time::{Duration, Instant};

const BIG: &str = "BIG";
const BIG_KEY: &str = "big";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conc {
    /// Length of the value that makes serialising a database slow.
    big: u32,
    /// Databases present at the start, and whether each holds the big value.
    start: BTreeMap<String, (BTreeMap<String, u8>, bool)>,
    /// What each client does: wait so many microseconds, then ask.
    clients: Vec<Vec<(u16, COp)>>,
    /// After how many microseconds the daemon's clock is moved on, so that it saves.
    ticks: Vec<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    AddDb(String, bool),
    Fill(String, bool, Vec<String>, bool),
    Clear(String),
    RmDb(String),
    AddKv(String, String, bool, bool),
    RmKv(String, String),
    GetDb(String),
    GetKv(String, String),
    Names,
}
impl COp {
    /// The operation, writing values that no other operation writes.
    fn op(&self, id: usize) -> Op {
        let val = || MV::Str(format!("w{id}"));
        match self.clone() {
            COp::AddDb(db, over) => Op::AddDb { db, over },
            COp::Fill(db, over, keys, big) => {
                let mut with: MStore = keys.into_iter().map(|k| (k, val())).collect();
                if big {
                    with.insert(BIG_KEY.into(), MV::Str(BIG.into()));
                }
                Op::Fill { db, over, with }
            }
            COp::Clear(db) => Op::Clear { db },
            COp::RmDb(db) => Op::RmDb { db },
            COp::AddKv(db, key, create, over) => Op::AddKv { db, key, create, over, val: val() },
            COp::RmKv(db, key) => Op::RmKv { db, key },
            COp::GetDb(db) => Op::GetDb { db },
            COp::GetKv(db, key) => Op::GetKv { db, key },
            COp::Names => Op::Names,
        }
    }
}

/// The request of an operation, with the big value put in.
fn request(op: &Op, big: &[u8]) -> (&'static str, String, Option<Vec<u8>>) {
    let mut op = op.clone();
    if let Op::Fill { with, .. } = &mut op {
        if let Some(v) = with.get_mut(BIG_KEY) {
            *v = MV::Bin(MBin::Bytes(big.to_vec()));
        }
    }
    op.request()
}
/// An answer in the model's terms, the big value abbreviated.
fn canonical(op: &Op, r: &Rsp, big: &[u8]) -> Result<Ans, String> {
    let small = |v: MV| match v {
        MV::Bin(MBin::Bytes(b)) if b == big => MV::Str(BIG.into()),
        v => v,
    };
    if r.status != 200 {
        return Ok(Ans::Status(r.status));
    }
    Ok(match op {
        Op::GetDb { .. } => {
            let s = Store::deser(&r.body).map_err(|e| format!("the database served is not a store: {e}"))?;
            let mut m = MStore::new();
            for (k, v) in s.iter() {
                m.insert(k.clone(), small(model_of(v)?));
            }
            Ans::Db(m)
        }
        Op::GetKv { .. } => Ans::Val(small(model_of(&Value::deser(&mut Cursor::new(&r.body), None).map_err(|e| format!("the value served cannot be read: {e}"))?)?)),
        Op::AddKv { .. } => Ans::Created(serde_json::from_slice(&r.body).map_err(|e| format!("answer: {e}"))?),
        Op::Names => {
            let v: Vec<String> = serde_json::from_slice(&r.body).map_err(|e| format!("names: {e}"))?;
            let n = v.len();
            let set: std::collections::BTreeSet<String> = v.into_iter().collect();
            if set.len() != n {
                return Err("a name is listed twice".into());
            }
            Ans::Names(set)
        }
        _ => Ans::Status(200),
    })
}

#[derive(Clone, Debug)]
struct Event {
    client: usize,
    op: Op,
    from: Instant,
    to: Instant,
    got: Ans,
}

/// Is there an order of the events, consistent with real time, that the model explains?
fn linearizable(start: &Dbs, per: &[Vec<Event>]) -> bool {
    fn go(pos: &mut Vec<usize>, s: &Dbs, per: &[Vec<Event>], seen: &mut HashSet<(Vec<usize>, String)>) -> bool {
        let first_end = per.iter().zip(pos.iter()).filter_map(|(p, i)| p.get(*i)).map(|e| e.to).min();
        let Some(first_end) = first_end else { return true };
        if !seen.insert((pos.clone(), format!("{s:?}"))) {
            return false;
        }
        for c in 0..per.len() {
            let Some(e) = per[c].get(pos[c]) else { continue };
            if e.from > first_end {
                continue;
            }
            let mut s2 = s.clone();
            if apply(&mut s2, &e.op) == e.got {
                pos[c] += 1;
                if go(pos, &s2, per, seen) {
                    return true;
                }
                pos[c] -= 1;
            }
        }
        false
    }
    go(&mut vec![0; per.len()], start, per, &mut HashSet::new())
}

fn describe(per: &[Vec<Event>]) -> String {
    let mut all: Vec<&Event> = per.iter().flatten().collect();
    all.sort_by_key(|e| e.from);
    let Some(t0) = all.first().map(|e| e.from) else { return String::new() };
    all.iter()
        .map(|e| format!("client {} [{}..{} us] {:?} -> {}", e.client, e.from.duration_since(t0).as_micros(), e.to.duration_since(t0).as_micros(), e.op, truncate(&format!("{:?}", e.got), 200)))
        .collect::<Vec<_>>()
        .join("\n  ")
}

/// Runs the workload once.
fn round(d: &Daemon, w: &Conc, big: &[u8], case: &mut Case) -> TestResult {
    let mut c = Client::new(d);
    let ask = |c: &mut Client, op: &Op| -> Result<Ans, Fail> {
        let (m, t, b) = request(op, big);
        let r = c.req(m, &t, b.as_deref()).map_err(|e| e.fail(&short(op)))?;
        canonical(op, &r, big).map_err(|e| Fail::Violation(format!("{}: {e}", short(op))))
    };
    // an empty daemon, then the databases wanted
    if let Ans::Names(n) = ask(&mut c, &Op::Names)? {
        for db in n {
            ask(&mut c, &Op::RmDb { db })?;
        }
    }
    let mut start = Dbs::new();
    for (db, (keys, has_big)) in &w.start {
        let mut with: MStore = keys.iter().map(|(k, v)| (k.clone(), MV::Str(format!("s{v}")))).collect();
        if *has_big {
            with.insert(BIG_KEY.into(), MV::Str(BIG.into()));
        }
        let op = Op::Fill { db: db.clone(), over: true, with };
        let want = apply(&mut start, &op);
        let got = ask(&mut c, &op)?;
        if got != want {
            return violation(format!("preparing: {} answers {got:?}", short(&op)));
        }
    }
    let gate = Barrier::new(w.clients.len() + 1);
    let out: Vec<Result<Vec<Event>, Fail>> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (n, ops) in w.clients.iter().enumerate() {
            let (gate, start) = (&gate, &start);
            hs.push(sc.spawn(move || {
                let mut c = Client::new(d);
                // connect before the start
                let _ = start;
                let warm = c.req("GET", "/healthcheck", None).map_err(|e| e.fail("health check"));
                let prepared: Vec<_> = ops
                    .iter()
                    .enumerate()
                    .map(|(i, (delay, o))| {
                        let op = o.op(n * 100 + i);
                        let req = request(&op, big);
                        (*delay, op, req)
                    })
                    .collect();
                gate.wait();
                warm?;
                let mut ev = vec![];
                for (delay, op, (m, t, b)) in prepared {
                    let t0 = Instant::now();
                    let wait = Duration::from_micros(delay.into());
                    if delay > 1000 {
                        std::thread::sleep(wait);
                    } else {
                        while t0.elapsed() < wait {
                            std::hint::spin_loop();
                        }
                    }
                    let from = Instant::now();
                    let r = c.req(m, &t, b.as_deref());
                    let to = Instant::now();
                    let r = r.map_err(|e| e.fail(&format!("client {n} {}", short(&op))))?;
                    let got = canonical(&op, &r, big).map_err(|e| Fail::Violation(format!("client {n} {}: {e}", short(&op))))?;
                    ev.push(Event { client: n, op, from, to, got });
                }
                Ok(ev)
            }));
        }
        gate.wait();
        for t in &w.ticks {
            std::thread::sleep(Duration::from_micros((*t).into()));
            d.pass_time();
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(harness_err!("a client thread panicked")))).collect()
    });
    let mut per = vec![];
    for o in out {
        per.push(o?);
    }
    // once they have stopped: everything as whole databases and key by key
    let mut last = vec![];
    let mut obs = |c: &mut Client, op: Op| -> Result<Ans, Fail> {
        let from = Instant::now();
        let got = ask(c, &op)?;
        last.push(Event { client: 99, op, from, to: Instant::now(), got: got.clone() });
        Ok(got)
    };
    if let Ans::Names(names) = obs(&mut c, Op::Names)? {
        for db in names {
            if let Ans::Db(m) = obs(&mut c, Op::GetDb { db: db.clone() })? {
                for k in ["k", "l", "m"].into_iter().map(String::from).chain(m.keys().cloned()).collect::<std::collections::BTreeSet<_>>() {
                    obs(&mut c, Op::GetKv { db: db.clone(), key: k })?;
                }
            }
        }
    }
    let mut all = per.clone();
    all.push(last);
    for (i, a) in per.iter().enumerate() {
        for b in per.iter().skip(i + 1) {
            for x in a {
                for y in b {
                    if x.from < y.to && y.from < x.to && x.op.db().is_some() && x.op.db() == y.op.db() && !(x.op.is_read() && y.op.is_read()) {
                        case.nontrivial();
                        case.label("overlapping_change_of_one_database");
                        if matches!(x.op, Op::GetDb { .. }) || matches!(y.op, Op::GetDb { .. }) {
                            case.label("whole_read_overlaps_change");
                        }
                    }
                }
            }
        }
    }
    if !linearizable(&start, &all) {
        return violation(format!("no order of the requests explains the answers; starting from {}:\n  {}", truncate(&format!("{start:?}"), 300), describe(&all)));
    }
    Ok(())
}

fn c19_with(w: &Conc, reps: u32, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let big = MBin::Noise(77, w.big).bytes();
    case.label_if(!w.ticks.is_empty(), "saves_meanwhile");
    for _ in 0..reps {
        round(&d, w, &big, case)?;
    }
    if !d.alive() {
        return violation("the daemon ended");
    }
    Ok(())
}
fn c19(w: &Conc, case: &mut Case) -> TestResult {
    let reps = std::env::var("VH_REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    c19_with(w, reps, case)
}

fn cdb() -> BoxedStrategy<String> {
    prop_oneof![3 => Just("a".to_string()), 1 => Just("b".to_string())].boxed()
}
fn ckey() -> BoxedStrategy<String> {
    prop::sample::select(vec!["k", "l", "m"]).prop_map(String::from).boxed()
}
fn cop() -> BoxedStrategy<COp> {
    prop_oneof![
        2 => (cdb(), any::<bool>()).prop_map(|(d, o)| COp::AddDb(d, o)),
        2 => (cdb(), any::<bool>(), vec(ckey(), 0..3), any::<bool>()).prop_map(|(d, o, k, b)| COp::Fill(d, o, k, b)),
        1 => cdb().prop_map(COp::Clear),
        2 => cdb().prop_map(COp::RmDb),
        7 => (cdb(), ckey(), any::<bool>(), any::<bool>()).prop_map(|(d, k, c, o)| COp::AddKv(d, k, c, o)),
        3 => (cdb(), ckey()).prop_map(|(d, k)| COp::RmKv(d, k)),
        7 => cdb().prop_map(COp::GetDb),
        3 => (cdb(), ckey()).prop_map(|(d, k)| COp::GetKv(d, k)),
        1 => Just(COp::Names),
    ]
    .boxed()
}
fn delay() -> BoxedStrategy<u16> {
    prop_oneof![4 => Just(0_u16), 2 => 1..300_u16, 1 => 300..1000_u16, 1 => 1000..6000_u16].boxed()
}
/// Requests that all want to create the same thing.
fn creators(_: Tier) -> BoxedStrategy<Conc> {
    let op = prop_oneof![
        Just(COp::AddDb("b".into(), false)),
        Just(COp::AddDb("b".into(), true)),
        vec(ckey(), 0..2).prop_map(|k| COp::Fill("b".into(), false, k, false)),
        any::<bool>().prop_map(|o| COp::AddKv("b".into(), "k".into(), true, o)),
        any::<bool>().prop_map(|o| COp::AddKv("a".into(), "m".into(), true, o)),
        Just(COp::RmKv("a".into(), "k".into())),
        Just(COp::RmDb("b".into())),
        Just(COp::RmDb("a".into())),
        Just(COp::Names),
    ];
    (
        500..8000_u32,
        vec(vec((delay(), op), 1..4), 2..5),
        prop_oneof![Just(vec![]), vec(0..3000_u16, 1..3)],
    )
        .prop_map(|(big, mut clients, ticks)| {
            // one client keeps the daemon busy reading a large database
            clients.push(vec![(0, COp::GetDb("a".into())), (0, COp::AddKv("a".into(), "l".into(), false, true)), (0, COp::GetDb("a".into()))]);
            Conc { big, start: BTreeMap::from([("a".to_string(), (BTreeMap::from([("k".to_string(), 0)]), true))]), clients, ticks }
        })
        .boxed()
}
fn mixed(_: Tier) -> BoxedStrategy<Conc> {
    (
        prop_oneof![1 => Just(0_u32), 3 => 200..10_000_u32],
        proptest::collection::btree_map(cdb(), (proptest::collection::btree_map(ckey(), any::<u8>(), 0..3), prop_oneof![1 => Just(false), 3 => Just(true)]), 0..3),
        vec(vec((delay(), cop()), 1..6), 2..5),
        prop_oneof![2 => Just(vec![]), 1 => vec(0..5000_u16, 1..3)],
    )
        .prop_map(|(big, start, clients, ticks)| Conc { big, start, clients, ticks })
        .boxed()
}
/// Writers of one database against whole reads of it, back to back.
fn readers(_: Tier) -> BoxedStrategy<Conc> {
    let write = prop_oneof![
        4 => (ckey(), any::<bool>()).prop_map(|(k, o)| COp::AddKv("a".into(), k, false, o)),
        2 => ckey().prop_map(|k| COp::RmKv("a".into(), k)),
        1 => Just(COp::Clear("a".into())),
        1 => Just(COp::AddDb("a".into(), true)),
        1 => Just(COp::RmDb("a".into())),
        2 => (any::<bool>(), vec(ckey(), 0..3)).prop_map(|(o, k)| COp::Fill("a".into(), o, k, true)),
    ];
    (
        200..10_000_u32,
        vec((delay(), write.clone()), 1..5),
        vec((delay(), prop_oneof![1 => write, 3 => Just(COp::GetDb("a".into()))]), 0..5),
        vec(delay(), 1..5),
        prop_oneof![3 => Just(vec![]), 1 => vec(0..3000_u16, 1..2)],
    )
        .prop_map(|(big, w, m, r, ticks)| Conc {
            big,
            start: BTreeMap::from([("a".to_string(), (BTreeMap::from([("k".to_string(), 0)]), true))]),
            clients: vec![w, m, r.into_iter().map(|d| (d, COp::GetDb("a".into()))).collect()],
            ticks,
        })
        .boxed()
}
pub fn c19p() -> Property {
    Property {
        id: "C19",
        rule: "workloads of 2 to 5 clients on one or two databases, each run several times; non-trivial: two requests on one database overlapped and one of them changes it",
        level: "exploration",
        assumptions: &["schedules are sampled, not enumerated; large values keep the daemon's lock busy so that requests queue up behind each other", "the time of a request is from before it is sent until its answer has been read"],
        checks: vec![
            Pbt::boxed_shards("readers_and_writers", 500, 9_000, 6, 40, readers, c19),
            Pbt::boxed_shards("creators", 320, 6_000, 6, 40, creators, c19),
            Pbt::boxed_shards("mixed", 320, 9_000, 6, 40, mixed, c19),
        ],
    }
}
