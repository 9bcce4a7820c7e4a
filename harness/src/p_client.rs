//! C24: the blocking and the async client against the real daemon.
use crate::core::*;
use crate::daemon::*;
use crate::model::*;
use crate::p_daemon::*;
use crate::{ensure, harness_err};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use sourisdb::store::Store;
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    Sync,
    Async,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CStep {
    Do(Via, Op),
    /// The same read through both clients.
    Both(Op),
    /// Goes on with a clone of the client.
    Clone(Via),
    /// Something changed by someone else.
    Other(Op),
}

fn rt() -> Result<tokio::runtime::Runtime, Fail> {
    tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| harness_err!("runtime: {e}"))
}

/// What a client said.
#[derive(Debug)]
enum Said {
    Bool(bool),
    Done,
    Store(Option<Store>),
    Names(Vec<String>),
    Created(CreationResult0),
    Error(String),
    /// There is no such operation on this client.
    Unavailable,
}
#[derive(Debug, PartialEq)]
struct CreationResult0(&'static str);
fn cr(r: &CreationResult) -> CreationResult0 {
    CreationResult0(match r {
        CreationResult::InsertedKeyIntoExistingDB => "InsertedKeyIntoExistingDB",
        CreationResult::OverwroteKeyInExistingDB => "OverwroteKeyInExistingDB",
        CreationResult::FoundExistingKey => "FoundExistingKey",
        CreationResult::InsertedKeyIntoNewDB => "InsertedKeyIntoNewDB",
        CreationResult::UnableToFindDB => "UnableToFindDB",
    })
}
fn said<T>(r: Result<T, ClientError>, f: impl FnOnce(T) -> Said) -> Said {
    match r {
        Ok(t) => f(t),
        Err(e) => Said::Error(e.to_string()),
    }
}
fn do_sync(c: &SyncClient, op: &Op) -> Said {
    match op {
        Op::AddDb { db, over } => said(c.create_new_db(*over, db), Said::Bool),
        Op::Fill { db, over, with } => said(c.add_db_with_contents(*over, db, &build_store(with)), Said::Bool),
        Op::RmDb { db } => said(c.remove_db(db), |()| Said::Done),
        Op::AddKv { db, key, create, over, val } => said(c.add_entry_to_db(db, *create, *over, key, &val.build()), |r| Said::Created(cr(&r))),
        Op::RmKv { db, key } => said(c.remove_entry_from_db(db, key), |()| Said::Done),
        Op::GetDb { db } => said(c.get_store(db), |s| Said::Store(Some(s))),
        Op::Names => said(c.get_all_dbs(), Said::Names),
        Op::Clear { .. } | Op::GetKv { .. } => Said::Unavailable,
    }
}
async fn do_async(c: &AsyncClient, op: &Op) -> Said {
    match op {
        Op::AddDb { db, over } => said(c.create_new_db(*over, db).await, Said::Bool),
        Op::Fill { db, over, with } => said(c.add_db_with_contents(*over, db, &build_store(with)).await, Said::Bool),
        Op::RmDb { db } => said(c.remove_db(db).await, Said::Bool),
        Op::AddKv { db, key, create, over, val } => said(c.add_entry_to_db(db, *create, *over, key, &val.build()).await, |r| Said::Created(cr(&r))),
        Op::RmKv { db, key } => said(c.remove_entry_from_db(db, key).await, |()| Said::Done),
        Op::GetDb { db } => said(c.get_store(db).await, Said::Store),
        Op::Names => said(c.get_all_dbs().await, Said::Names),
        Op::Clear { .. } | Op::GetKv { .. } => Said::Unavailable,
    }
}
/// Is what the client says what the model answers?
fn truthful(via: Via, op: &Op, want: &Ans, got: &Said) -> Result<(), String> {
    let no = |w: &str| Err(format!("the {via:?} client says {} instead of {w}", truncate(&format!("{got:?}"), 200)));
    match (op, want, got) {
        (_, _, Said::Unavailable) => Ok(()),
        // the daemon refuses: an error, unless the operation is documented to answer otherwise
        (Op::RmKv { .. }, Ans::Status(400 | 410), _) if via == Via::Async => {
            if matches!(got, Said::Done) { Ok(()) } else { no("nothing (documented not to fail when there is nothing to remove)") }
        }
        (Op::RmDb { .. }, Ans::Status(410), _) if via == Via::Async => {
            if matches!(got, Said::Bool(false)) { Ok(()) } else { no("false") }
        }
        (Op::GetDb { .. }, Ans::Status(410), _) if via == Via::Async => {
            if matches!(got, Said::Store(None)) { Ok(()) } else { no("none") }
        }
        (_, Ans::Status(n), _) if *n >= 400 => {
            if matches!(got, Said::Error(_)) { Ok(()) } else { no("an error") }
        }
        (Op::AddDb { .. } | Op::Fill { .. }, Ans::Status(n), _) => {
            let created = *n == 201;
            if matches!(got, Said::Bool(b) if *b == created) { Ok(()) } else { no(if created { "true (created)" } else { "false (existed)" }) }
        }
        (Op::RmDb { .. }, Ans::Status(_), _) if via == Via::Async => {
            if matches!(got, Said::Bool(true)) { Ok(()) } else { no("true (removed)") }
        }
        (Op::RmDb { .. } | Op::RmKv { .. }, Ans::Status(_), _) => {
            if matches!(got, Said::Done) { Ok(()) } else { no("success") }
        }
        (_, Ans::Created(w), _) => {
            if matches!(got, Said::Created(g) if g.0 == w) { Ok(()) } else { no(w) }
        }
        (_, Ans::Db(m), Said::Store(Some(s))) => same_store(m, s, &mut Tolerance::default()).map_err(|e| format!("through the {via:?} client: {e}")),
        (_, Ans::Names(n), Said::Names(g)) => {
            let set: BTreeSet<String> = g.iter().cloned().collect();
            if set.len() == g.len() && set == *n { Ok(()) } else { no(&format!("{n:?}")) }
        }
        (_, w, _) => no(&truncate(&format!("{w:?}"), 200)),
    }
}

fn c24(steps: &Vec<CStep>, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let rt = rt()?;
    let port = u32::from(d.port);
    let mut sc = SyncClient::new("127.0.0.1", port).map_err(|e| Fail::Violation(format!("the blocking client does not connect: {e}")))?;
    let mut ac = rt.block_on(AsyncClient::new("127.0.0.1", Some(port))).map_err(|e| Fail::Violation(format!("the async client does not connect: {e}")))?;
    let mut raw = Client::new(&d);
    let mut s = Dbs::new();
    let odd = |t: &str| t.chars().any(|c| !c.is_ascii_alphanumeric());
    let mut vias = [false; 2];
    for (i, st) in steps.iter().enumerate() {
        let run = |via: Via, op: &Op, s: &mut Dbs| -> TestResult {
            let got = match via {
                Via::Sync => do_sync(&sc, op),
                Via::Async => rt.block_on(do_async(&ac, op)),
            };
            if matches!(got, Said::Unavailable) {
                return Ok(());
            }
            let want = apply(s, op);
            truthful(via, op, &want, &got).or_else(|e| violation(format!("step {i} {}: {e}", short(op))))
        };
        match st {
            CStep::Do(via, op) => {
                vias[*via as usize] = true;
                case.label_if(op.db().is_some_and(odd), "name_needs_escaping");
                case.label_if(matches!(op, Op::AddKv { key, .. } | Op::RmKv { key, .. } if odd(key)), "key_needs_escaping");
                op_labels(std::slice::from_ref(op), case);
                let before = s.clone();
                run(*via, op, &mut s)?;
                // what was stored is there, seen without the clients
                if let (Some(db), false) = (op.db(), op.is_read()) {
                    case.label_if(before == s, "changes_nothing");
                    let mut s2 = s.clone();
                    step(&mut raw, &mut s2, i, &Op::GetDb { db: db.into() }).map_err(|f| at(f, &format!("after {}", short(op))))?;
                }
            }
            CStep::Both(op) => {
                if op.is_read() {
                    run(Via::Sync, op, &mut s)?;
                    run(Via::Async, op, &mut s)?;
                }
            }
            CStep::Clone(Via::Sync) => sc = sc.clone(),
            CStep::Clone(Via::Async) => ac = ac.clone(),
            CStep::Other(op) => step(&mut raw, &mut s, i, op)?,
        }
    }
    if steps.len() >= 4 && vias == [true, true] {
        case.nontrivial();
    }
    audit(&mut raw, &s, "after the history")?;
    for via in [Via::Sync, Via::Async] {
        for op in s.keys().map(|db| Op::GetDb { db: db.clone() }).chain([Op::Names]) {
            let got = match via {
                Via::Sync => do_sync(&sc, &op),
                Via::Async => rt.block_on(do_async(&ac, &op)),
            };
            truthful(via, &op, &apply(&mut s.clone(), &op), &got).or_else(|e| violation(format!("after the history, {}: {e}", short(&op))))?;
        }
    }
    ensure!(d.alive(), "the daemon ended");
    Ok(())
}
fn c24_steps(t: Tier) -> BoxedStrategy<Vec<CStep>> {
    let via = || prop_oneof![Just(Via::Sync), Just(Via::Async)];
    let op = || dop(t, any_dbname).prop_filter_map("no client operation", |o| match o {
        Op::Clear { db } => Some(Op::AddDb { db, over: true }),
        Op::GetKv { db, .. } => Some(Op::GetDb { db }),
        o => Some(o),
    });
    let steps = vec(
        prop_oneof![
            30 => (via(), op()).prop_map(|(v, o)| CStep::Do(v, o)),
            4 => prop_oneof![any_dbname().prop_map(|db| Op::GetDb { db }), Just(Op::Names)].prop_map(CStep::Both),
            1 => via().prop_map(CStep::Clone),
            3 => dop(t, any_dbname).prop_map(CStep::Other),
        ],
        1..24,
    );
    (vocab(), steps)
        .prop_map(|(v, steps)| {
            steps
                .into_iter()
                .map(|s| match s {
                    CStep::Do(via, o) => CStep::Do(via, v.op(o)),
                    CStep::Both(o) => CStep::Both(v.op(o)),
                    CStep::Other(o) => CStep::Other(v.op(o)),
                    s => s,
                })
                .collect()
        })
        .boxed()
}

// ---------------------------------------------------------------- clients and broken servers
/// How a server that is not well answers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sick {
    Status(u16),
    /// Announces more bytes than it sends, then hangs up.
    Short(u8),
    /// Success, with a body that is nothing the operation answers with.
    Junk(Vec<u8>),
    /// Hangs up without an answer.
    HangUp,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SickCase {
    sick: Sick,
    /// Sick already when the clients connect.
    at_once: bool,
    ops: Vec<Op>,
}
fn serve(l: &std::net::TcpListener, sick: &Sick, body: &[u8], healthy_first: bool, stop: &std::sync::atomic::AtomicBool) {
    use std::sync::atomic::Ordering::SeqCst;
    let _ = l.set_nonblocking(true);
    while !stop.load(SeqCst) {
        let Ok((mut c, _)) = l.accept() else {
            std::thread::sleep(Duration::from_micros(200));
            continue;
        };
        let _ = c.set_nonblocking(false);
        let _ = c.set_read_timeout(Some(Duration::from_secs(10)));
        // one request per connection
        let mut req = vec![];
        let mut tmp = [0_u8; 65536];
        let mut done = false;
        while !done {
            match c.read(&mut tmp) {
                Ok(0) | Err(_) => break,
                Ok(n) => req.extend(&tmp[..n]),
            }
            if let Some(h) = req.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&req[..h]).to_ascii_lowercase();
                let len = head.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse::<usize>().ok()).unwrap_or(0);
                done = if head.contains("transfer-encoding: chunked") { req.ends_with(b"0\r\n\r\n") } else { req.len() >= h + 4 + len };
            }
        }
        let health = req.starts_with(b"GET /healthcheck");
        let full = |status: &str, len: usize, body: &[u8]| {
            let mut r = format!("HTTP/1.1 {status}\r\nconnection: close\r\ncontent-length: {len}\r\n\r\n").into_bytes();
            r.extend(body);
            r
        };
        let answer = if health && healthy_first {
            full("200 OK", 0, b"")
        } else {
            match sick {
                Sick::Status(n) => full(&format!("{n} X"), body.len(), body),
                Sick::Short(k) => full("200 OK", body.len() + 1 + *k as usize, body),
                Sick::Junk(j) => full("200 OK", j.len(), j),
                Sick::HangUp => vec![],
            }
        };
        let _ = c.write_all(&answer);
        let _ = c.shutdown(std::net::Shutdown::Write);
        // let it be read before the connection goes away
        let _ = c.set_read_timeout(Some(Duration::from_millis(10)));
        let _ = c.read(&mut tmp);
    }
}
fn c24_sick(t: &SickCase, case: &mut Case) -> TestResult {
    use std::sync::atomic::{AtomicBool, Ordering};
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| harness_err!("bind: {e}"))?;
    let port = u32::from(l.local_addr().map_err(|e| harness_err!("{e}"))?.port());
    let stop = AtomicBool::new(false);
    // a body that would be a fine answer
    let body = build_store(&MStore::from([("k".into(), MV::Bool(true))])).ser();
    case.nontrivial();
    case.label(match &t.sick {
        Sick::Status(400..=499) => "client_error",
        Sick::Status(_) => "server_error",
        Sick::Short(_) => "cut_answer",
        Sick::Junk(_) => "junk_answer",
        Sick::HangUp => "hangs_up",
    });
    let rt = rt()?;
    std::thread::scope(|sc| {
        sc.spawn(|| serve(&l, &t.sick, &body, !t.at_once, &stop));
        let r = (|| {
            let s = guarded(|| SyncClient::new("127.0.0.1", port)).map_err(|(m, l)| Fail::Violation(format!("the blocking client panics: {m} at {l}")))?;
            let a = guarded(|| rt.block_on(AsyncClient::new("127.0.0.1", Some(port)))).map_err(|(m, l)| Fail::Violation(format!("the async client panics: {m} at {l}")))?;
            if t.at_once {
                case.label("while_connecting");
                // a success with an odd body still says that it is healthy
                if matches!(t.sick, Sick::Status(_) | Sick::HangUp) {
                    ensure!(s.is_err(), "the blocking client connects to a server whose health check answers {:?}", t.sick);
                    ensure!(a.is_err(), "the async client connects to a server whose health check answers {:?}", t.sick);
                }
                return Ok(());
            }
            let (s, a) = (s.map_err(|e| Fail::Violation(format!("the blocking client does not connect: {e}")))?, a.map_err(|e| Fail::Violation(format!("the async client does not connect: {e}")))?);
            for op in &t.ops {
                for via in [Via::Sync, Via::Async] {
                    let got = guarded(|| match via {
                        Via::Sync => do_sync(&s, op),
                        Via::Async => rt.block_on(do_async(&a, op)),
                    })
                    .map_err(|(m, l)| Fail::Violation(format!("{}: the {via:?} client panics: {m} at {l}", short(op))))?;
                    let reads_body = op.is_read() || matches!(op, Op::AddKv { .. });
                    let ok = match (&got, &t.sick) {
                        (Said::Unavailable | Said::Error(_), _) => true,
                        // documented answers for what is not there
                        (Said::Done, Sick::Status(400 | 410)) => via == Via::Async && matches!(op, Op::RmKv { .. }),
                        (Said::Bool(false), Sick::Status(410)) => via == Via::Async && matches!(op, Op::RmDb { .. }),
                        (Said::Store(None), Sick::Status(410)) => via == Via::Async,
                        (_, Sick::Status(_) | Sick::HangUp) => false,
                        // a success whose body does not matter, or happens to be readable
                        (_, Sick::Short(_)) => !reads_body,
                        (Said::Store(Some(_)), Sick::Junk(j)) => Store::deser(j).is_ok(),
                        (Said::Names(_), Sick::Junk(j)) => serde_json::from_slice::<Vec<String>>(j).is_ok(),
                        (Said::Created(_), Sick::Junk(j)) => serde_json::from_slice::<CreationResult>(j).is_ok(),
                        (_, Sick::Junk(_)) => true,
                    };
                    ensure!(ok, "{}: the server answers {}, but the {via:?} client says {}", short(op), short(&t.sick), truncate(&format!("{got:?}"), 200));
                }
            }
            Ok(())
        })();
        stop.store(true, Ordering::SeqCst);
        r
    })
}
fn c24_sick_case(t: Tier) -> BoxedStrategy<SickCase> {
    let sick = prop_oneof![
        4 => prop::sample::select(vec![400_u16, 401, 404, 405, 408, 409, 410, 411, 413, 418, 429, 431, 500, 501, 502, 503, 504, 507, 599]).prop_map(Sick::Status),
        2 => any::<u8>().prop_map(Sick::Short),
        2 => prop_oneof![vec(any::<u8>(), 0..40), prop::sample::select(vec!["", "null", "[]", "{}", "\"UnableToFindDB\"", "\"Nope\"", "[1]", "[\"a\"", "SOURIS", "SOURISDB", "true"]).prop_map(|s| s.as_bytes().to_vec())].prop_map(Sick::Junk),
        1 => Just(Sick::HangUp),
    ];
    (sick, prop::bool::weighted(0.15), vec(dop(t, dbname), 1..4)).prop_map(|(sick, at_once, ops)| SickCase { sick, at_once, ops }).boxed()
}

fn c24_large(t: Tier) -> BoxedStrategy<Vec<CStep>> {
    heavy_ops(t, 14_000_000)
        .prop_flat_map(|ops| {
            let n = ops.len();
            (Just(ops), vec(prop_oneof![Just(Via::Sync), Just(Via::Async)], n))
        })
        .prop_map(|(ops, vias)| {
            ops.into_iter()
                .zip(vias)
                .map(|(o, v)| match o {
                    Op::Clear { db } => CStep::Do(v, Op::AddDb { db, over: true }),
                    Op::GetKv { db, .. } => CStep::Do(v, Op::GetDb { db }),
                    o => CStep::Do(v, o),
                })
                .collect()
        })
        .boxed()
}

pub fn c24p() -> Property {
    Property {
        id: "C24",
        rule: "histories through the blocking and the async client (each operation, odd names and keys, all kinds of value, now and then of up to 14 MB), every answer compared with the map of maps, the database concerned read back without a client after every change, both clients reading everything at the end; and servers that answer with errors, cut or senseless answers; non-trivial: at least four steps that use both clients, or any broken server",
        level: "exploration",
        assumptions: &["the daemon listens on a port of the kernel's choosing (preloaded shim), which the clients are given", "where the clients' documentation differs (a missing database, a missing key), each is held to its own"],
        checks: vec![
            Pbt::boxed_shards("history", 1_200, 30_000, 24, 200, c24_steps, c24),
            Pbt::boxed_shards("large_values", 48, 1_000, 8, 60, c24_large, c24),
            Pbt::boxed_shards("broken_servers", 600, 10_000, 24, 100, c24_sick_case, c24_sick),
        ],
    }
}
