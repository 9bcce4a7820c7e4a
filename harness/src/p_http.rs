//! C22, C23: hostile names, malformed requests and hostile bodies against the real daemon.
use crate::core::*;
use crate::daemon::*;
use crate::model::*;
use crate::p_codec::{c04_store_mut, hostile_value, Hostile};
use crate::p_daemon::*;
use crate::refcodec as rc;
use crate::{ensure, harness_err};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::path::{Component, Path, PathBuf};
use std::time::Duration;

const SETTLE: Duration = Duration::from_millis(4);

// ---------------------------------------------------------------- C22
/// A database name as bytes of the request; `{DIR}` stands for the case's scratch folder.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Name(Vec<u8>);
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Route {
    AddDb,
    AddDbOver,
    Fill,
    FillOver,
    Clear,
    RmDb,
    AddKv,
    AddKvNoCreate,
    RmKv,
    GetDb,
    GetKv,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NStep {
    Hostile(Name, Route),
    Good(Op),
    Save,
    Restart(bool),
}

fn lexical(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}

fn c22(steps: &Vec<NStep>, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    // files and folders around that a name could reach
    let mut decoys = vec![];
    for (dir, file) in [("", "x.sdb"), ("a", "x.sdb"), ("a/b", "x.sdb"), ("a/b/base/sub", "x.sdb"), ("a/b/base/x.sdb.d", "x.sdb"), ("a/b", "meta.sdb"), ("esc", "x.sdb")] {
        let d = place.dir.join(dir);
        std::fs::create_dir_all(&d).map_err(|e| harness_err!("{e}"))?;
        give(&d);
        let f = d.join(file);
        std::fs::write(&f, b"decoy").map_err(|e| harness_err!("{e}"))?;
        give(&f);
        decoys.push(f.strip_prefix(&place.dir).map_err(|e| harness_err!("{e}"))?.to_path_buf());
    }
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let mut c = Client::new(&d);
    let mut s = Dbs::new();
    let meta = place.base.join("meta.sdb");
    let mut listed = None;
    for (i, st) in steps.iter().enumerate() {
        match st {
            NStep::Good(op) => step(&mut c, &mut s, i, op)?,
            NStep::Hostile(n, route) => {
                let mut raw = n.0.clone();
                let dir = place.dir.to_string_lossy().to_string();
                while let Some(at) = raw.windows(5).position(|w| w == b"{DIR}") {
                    raw.splice(at..at + 5, dir.bytes());
                }
                let e = enc_bytes(&raw);
                // what the daemon makes of it: bad UTF-8 is replaced, which is not ASCII
                let name = String::from_utf8_lossy(&raw).to_string();
                let with = MStore::from([("k".to_string(), MV::Str("fill".into()))]);
                let (key, val) = ("k".to_string(), MV::Str("kv".into()));
                let op = match route {
                    Route::AddDb | Route::AddDbOver => Op::AddDb { db: name.clone(), over: *route == Route::AddDbOver },
                    Route::Fill | Route::FillOver => Op::Fill { db: name.clone(), over: *route == Route::FillOver, with },
                    Route::Clear => Op::Clear { db: name.clone() },
                    Route::RmDb => Op::RmDb { db: name.clone() },
                    Route::AddKv => Op::AddKv { db: name.clone(), key, create: true, over: true, val },
                    Route::AddKvNoCreate => Op::AddKv { db: name.clone(), key, create: false, over: true, val },
                    Route::RmKv => Op::RmKv { db: name.clone(), key },
                    Route::GetDb => Op::GetDb { db: name.clone() },
                    Route::GetKv => Op::GetKv { db: name.clone(), key },
                };
                let (m, t, b) = op.request();
                let t = t.replacen(&format!("db_name={}", enc(&name)), &format!("db_name={e}"), 1);
                let r = c.req(m, &t, b.as_deref()).map_err(|e| e.fail(&format!("step {i} {}", short(&op))))?;
                let want = apply(&mut s, &op);
                if storable(&name) {
                    check_answer(&want, &r).or_else(|e| violation(format!("step {i} {}: {e}", short(&op))))?;
                } else {
                    case.nontrivial();
                    case.label("unstorable_name");
                    case.label_if(name.contains('/') || name.contains(".."), "path_in_name");
                    case.label_if(name.len() > 251, "over_long");
                    case.label_if(!name.is_ascii(), "non_ascii");
                    case.label_if(name == "meta", "reserved");
                    // nothing exists under such a name, and nothing may come to exist
                    let unable = matches!(&want, Ans::Created(w) if w == "UnableToFindDB") && check_answer(&want, &r).is_ok();
                    ensure!(unable || (400..500).contains(&r.status), "step {i} {}: the name cannot be stored, but the status is {}", short(&op), r.status);
                }
            }
            NStep::Save => {
                ensure!(d.save(SETTLE)?, "step {i}: the daemon ended while saving");
                listed = Some(std::fs::read(&meta).map_err(|e| Fail::Violation(format!("step {i}: after a save there is no list of databases: {e}")))?);
            }
            NStep::Restart(orderly) => {
                case.label("restart");
                drop(c);
                if *orderly {
                    d.stop()?;
                } else {
                    ensure!(d.save(SETTLE)?, "step {i}: the daemon ended while saving");
                    d.kill();
                }
                d = Daemon::start(&place).map_err(|e| at(e.fail(), &format!("step {i}")))?;
                c = Client::new(&d);
                audit(&mut c, &s, &format!("step {i}, after a restart"))?;
                listed = std::fs::read(&meta).ok();
            }
        }
        // between saves nothing touches the list
        if let Some(l) = &listed {
            ensure!(std::fs::read(&meta).ok().as_ref() == Some(l), "step {i} {}: the file of the database list changed without a save", short(st));
        }
    }
    audit(&mut c, &s, "after the history")?;
    ensure!(d.save(SETTLE)?, "the daemon ended while saving");
    drop(c);
    d.kill();
    // every path the daemon ever changed
    let log = String::from_utf8_lossy(&std::fs::read(&place.log).unwrap_or_default()).to_string();
    let fields: Vec<&str> = log.split('\0').collect();
    let err = place.dir.join("stderr");
    for f in fields.chunks_exact(3) {
        let what = f[0];
        let paths = match what {
            "open" => vec![f[1]],
            "rename" | "link" | "unlink" | "mkdir" => f[1..].to_vec(),
            _ => continue,
        };
        for p in paths.into_iter().filter(|p| !p.is_empty()) {
            let full = lexical(&place.dir.join(p));
            if full == err || (what == "mkdir" && full == place.base) {
                continue;
            }
            ensure!(full.parent() == Some(&place.base), "the daemon made file operation {what} on {p:?}, which is not directly inside its folder {:?}", place.base);
        }
    }
    let base = place.base.strip_prefix(&place.dir).map_err(|e| harness_err!("{e}"))?.to_path_buf();
    let files = place.files();
    for (p, body) in &files {
        if p == Path::new("stderr") {
            continue;
        }
        if decoys.contains(p) {
            ensure!(body == b"decoy", "file {p:?} outside the daemon's own files was changed");
        } else {
            ensure!(p.parent() == Some(&base), "file {p:?} was created outside the daemon's folder");
        }
    }
    for p in &decoys {
        ensure!(files.contains_key(p), "file {p:?} outside the daemon's own files was removed");
    }
    // and everything else is still there
    let d = Daemon::start(&place).map_err(|e| at(e.fail(), "at the end"))?;
    audit(&mut Client::new(&d), &s, "after the last restart")?;
    d.kill();
    Ok(())
}
fn hostile_name() -> BoxedStrategy<Name> {
    let seg = || prop::sample::select(vec!["..", ".", "x", "sub", "base", "a", "b", "meta", "", "x.sdb.d"]);
    let s = |v: &str| Name(v.as_bytes().to_vec());
    prop_oneof![
        6 => vec(seg(), 2..5).prop_map(|v| Name(v.join("/").into_bytes())),
        3 => prop::sample::select(vec!["../x", "../meta", "./meta", "sub/../meta", "sub/x", "../base/a", "./a", "{DIR}/x", "{DIR}/esc/new", "{DIR}/a/b/base/a", "{DIR}/a/b/base/meta", "/", "//", "a/", "/x", "x.sdb.d/x"]).prop_map(move |v| s(v)),
        3 => Just(s("meta")),
        2 => prop::sample::select(vec!["meta\0", "a\0", "\0", "a\0/../x", "x.sdb\0.sdb"]).prop_map(move |v| s(v)),
        2 => (250..260_usize).prop_map(|n| Name(vec![b'n'; n])),
        1 => prop::sample::select(vec![251_usize, 252, 255, 256, 1000, 4090, 4096, 5000]).prop_map(|n| Name(vec![b'n'; n])),
        2 => prop::sample::select(vec!["é", "数据", "a\u{301}", "\u{202e}", "ｍｅｔａ", "../é"]).prop_map(move |v| s(v)),
        2 => vec(any::<u8>(), 1..6).prop_map(Name),
        1 => prop::sample::select(vec![vec![0xff_u8], b"a\xff".to_vec(), b"\xc0\xae\xc0\xae/x".to_vec(), b"meta\xff".to_vec()]).prop_map(Name),
        2 => prop::sample::select(vec!["meta.sdb", " meta", "meta ", "META", "meta2", "\\", "..\\x", "C:x", "%2e%2e%2fx", "%2e%2e/x", "-rf", "*", "~", "$HOME", "save.tmp", "x", "sub", "a\nb", "\r\n", "|id", "..", "...", ""]).prop_map(move |v| s(v)),
    ]
    .boxed()
}
fn route() -> BoxedStrategy<Route> {
    use Route::*;
    prop::sample::select(vec![AddDb, AddDb, AddDbOver, Fill, Fill, FillOver, FillOver, Clear, RmDb, RmDb, AddKv, AddKv, AddKv, AddKvNoCreate, RmKv, GetDb, GetKv]).boxed()
}
fn c22_steps(_: Tier) -> BoxedStrategy<Vec<NStep>> {
    let good = prop_oneof![
        Just(Op::AddDb { db: "a".into(), over: false }),
        any::<u8>().prop_map(|v| Op::AddKv { db: "a".into(), key: "k".into(), create: true, over: true, val: MV::Str(format!("v{v}")) }),
        any::<u8>().prop_map(|v| Op::AddKv { db: "x".into(), key: "k".into(), create: true, over: true, val: MV::Str(format!("v{v}")) }),
        Just(Op::RmDb { db: "x".into() }),
        Just(Op::Names),
    ];
    vec(
        prop_oneof![
            8 => (hostile_name(), route()).prop_map(|(n, r)| NStep::Hostile(n, r)),
            // the same name on several routes in a row
            3 => good.prop_map(NStep::Good),
            2 => Just(NStep::Save),
            1 => any::<bool>().prop_map(NStep::Restart),
        ],
        1..14,
    )
    .prop_flat_map(|v| (Just(v), proptest::option::weighted(0.6, (hostile_name(), vec(route(), 2..5)))))
    .prop_map(|(mut v, again)| {
        if let Some((n, rs)) = again {
            v.extend(rs.into_iter().map(|r| NStep::Hostile(n.clone(), r)));
        }
        v
    })
    .boxed()
}
pub fn c22p() -> Property {
    Property {
        id: "C22",
        rule: "histories of requests on every route with hostile database names, mixed with good requests, saves and restarts; afterwards every path the daemon opened for writing, renamed or removed, and every file around its folder, is checked; non-trivial: a name that cannot be stored was used",
        level: "exploration",
        assumptions: &["the daemon runs as an account that owns nothing but the case's scratch folder", "paths are recorded at the libc calls the daemon makes"],
        checks: vec![Pbt::boxed_shards("names", 800, 20_000, 8, 200, c22_steps, c22)],
    }
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Twist {
    /// Leave a parameter out.
    Without(u8),
    /// Give a parameter twice.
    Twice(u8),
    /// Replace a parameter's value by something ill-typed (flags only).
    IllTyped(u8, String),
    /// Rename a parameter.
    Renamed(u8, String),
    /// Another method.
    Method(String),
    /// Another path.
    Path(String),
    /// No query at all.
    NoQuery,
    /// A query that is not one.
    Query(String),
    /// Another body for a route that takes one (bytes as they are, or wrapped as a store).
    Body(Hostile),
    /// The proper body, cut.
    Cut(u16),
    /// Proper, but sent in chunks, or with another content type.
    Chunked(u8),
    Header(String, String),
    /// Announces more than it sends and hangs up.
    HangUp(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HStep {
    Good(Op),
    Bad(Op, Twist),
    Raw(Vec<u8>),
    Health,
}

fn raw_request(m: &str, t: &str, headers: &[(String, String)], body: Option<&[u8]>, chunk: Option<usize>) -> Vec<u8> {
    let mut raw = format!("{m} {t} HTTP/1.1\r\nhost: localhost\r\n").into_bytes();
    for (k, v) in headers {
        raw.extend(format!("{k}: {v}\r\n").into_bytes());
    }
    match (body, chunk) {
        (Some(b), Some(n)) => {
            raw.extend(b"transfer-encoding: chunked\r\n\r\n");
            for c in b.chunks(n.max(1)) {
                raw.extend(format!("{:x}\r\n", c.len()).into_bytes());
                raw.extend(c);
                raw.extend(b"\r\n");
            }
            raw.extend(b"0\r\n\r\n");
        }
        (b, _) => {
            let b = b.unwrap_or_default();
            raw.extend(format!("content-length: {}\r\n\r\n", b.len()).into_bytes());
            raw.extend(b);
        }
    }
    raw
}
fn params(t: &str) -> (String, Vec<String>) {
    match t.split_once('?') {
        Some((p, q)) => (p.into(), q.split('&').map(String::from).collect()),
        None => (t.into(), vec![]),
    }
}

enum Expect {
    /// A client error, nothing changed.
    Refused,
    /// As the operation.
    Served(Op),
    /// A client error or as the operation.
    Either(Op),
}

enum Body {
    Unreadable,
    Asks(Op),
    /// A few bytes that stand for a very large value.
    Bomb,
}
/// What becomes of this body: the operation it asks for, if the library reads it.
fn with_body(op: &Op, body: &[u8]) -> Result<Body, Fail> {
    let u = |m: String| harness_err!("{m}");
    crate::alloc::most();
    let asked = match op {
        Op::Fill { db, over, .. } => match guarded(|| Store::deser(body).ok()).map_err(|(m, l)| u(format!("{m} at {l}")))? {
            Some(s) => match s.iter().map(|(k, v)| model_of(v).map(|v| (k.clone(), v))).collect::<Result<MStore, _>>() {
                Ok(with) => Some(Op::Fill { db: db.clone(), over: *over, with }),
                Err(_) => None,
            },
            None => None,
        },
        Op::AddKv { db, key, create, over, .. } => match guarded(|| Value::deser(&mut Cursor::new(&body.to_vec()), None).ok()).map_err(|(m, l)| u(format!("{m} at {l}")))? {
            Some(v) => model_of(&v).ok().map(|val| Op::AddKv { db: db.clone(), key: key.clone(), create: *create, over: *over, val }),
            None => None,
        },
        o => Some(o.clone()),
    };
    Ok(if crate::alloc::most() > 4 << 20 { Body::Bomb } else { asked.map_or(Body::Unreadable, Body::Asks) })
}

fn c23(steps: &Vec<HStep>, case: &mut Case) -> TestResult {
    let place = Place::new()?;
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let mut c = Client::new(&d);
    let mut s = Dbs::new();
    for (i, st) in steps.iter().enumerate() {
        match st {
            HStep::Good(op) => step(&mut c, &mut s, i, op)?,
            HStep::Health => {
                let r = c.req("GET", "/healthcheck", None).map_err(|e| e.fail(&format!("step {i} health check")))?;
                ensure!(r.status == 200, "step {i}: the health check answers {}", r.status);
            }
            HStep::Raw(bytes) => {
                case.nontrivial();
                case.label("not_http");
                use std::io::{Read, Write};
                let mut t = std::net::TcpStream::connect(d.addr()).map_err(|e| Fail::Violation(format!("step {i}: cannot connect: {e}")))?;
                let _ = t.write_all(bytes);
                let _ = t.shutdown(std::net::Shutdown::Write);
                let _ = t.set_read_timeout(Some(Duration::from_secs(20)));
                let mut out = vec![];
                let _ = t.read_to_end(&mut out);
                let head = String::from_utf8_lossy(&out[..out.len().min(16)]).to_string();
                ensure!(out.is_empty() || !head.contains(" 5"), "step {i}: garbage is answered with {head:?}");
            }
            HStep::Bad(op, twist) => {
                case.nontrivial();
                bad(&mut c, &d, &mut s, op, twist, case).map_err(|f| at(f, &format!("step {i} {} {}", short(op), short(twist))))?;
            }
        }
        if !d.alive() {
            return violation(format!("step {i} {}: the daemon ended", short(st)));
        }
    }
    let r = c.req("GET", "/healthcheck", None).map_err(|e| e.fail("health check"))?;
    ensure!(r.status == 200, "the health check answers {}", r.status);
    audit(&mut c, &s, "after the history")?;
    ensure!(d.alive(), "the daemon ended");
    Ok(())
}
fn bad(c: &mut Client, d: &Daemon, s: &mut Dbs, op: &Op, twist: &Twist, case: &mut Case) -> TestResult {
    let (m, t, b) = op.request();
    let (path, ps) = params(&t);
    let needs: usize = ps.len();
    let pick = |i: u8| i as usize % needs.max(1);
    let rebuild = |ps: &[String]| if ps.is_empty() { path.clone() } else { format!("{path}?{}", ps.join("&")) };
    let takes_body = matches!(op, Op::Fill { .. } | Op::AddKv { .. });
    let mut method = m.to_string();
    let mut target = t.clone();
    let mut body = b.clone();
    let mut headers = vec![];
    let mut chunk = None;
    let no_params = needs == 0;
    let expect = match twist {
        Twist::Without(_) | Twist::Twice(_) | Twist::IllTyped(..) | Twist::Renamed(..) | Twist::NoQuery | Twist::Query(_) if no_params => Expect::Either(op.clone()),
        Twist::Without(i) => {
            let mut ps = ps.clone();
            ps.remove(pick(*i));
            target = rebuild(&ps);
            case.label("parameter_missing");
            Expect::Refused
        }
        Twist::Twice(i) => {
            let mut ps = ps.clone();
            ps.push(ps[pick(*i)].clone());
            target = rebuild(&ps);
            case.label("parameter_twice");
            Expect::Either(op.clone())
        }
        Twist::IllTyped(i, v) => {
            let flags: Vec<usize> = (0..needs).filter(|j| ps[*j].ends_with("=true") || ps[*j].ends_with("=false")).filter(|j| ps[*j].starts_with("overwrite") || ps[*j].starts_with("create")).collect();
            if flags.is_empty() {
                Expect::Served(op.clone())
            } else {
                let j = flags[*i as usize % flags.len()];
                let mut ps = ps.clone();
                let name = ps[j].split('=').next().unwrap_or_default().to_string();
                ps[j] = format!("{name}={v}");
                target = rebuild(&ps);
                case.label("parameter_ill_typed");
                Expect::Refused
            }
        }
        Twist::Renamed(i, n) => {
            let mut ps = ps.clone();
            let j = pick(*i);
            let v = ps[j].split_once('=').map(|x| x.1.to_string()).unwrap_or_default();
            ps[j] = format!("{n}={v}");
            target = rebuild(&ps);
            case.label("parameter_renamed");
            Expect::Refused
        }
        Twist::NoQuery => {
            target = path.clone();
            case.label("no_query");
            Expect::Refused
        }
        Twist::Query(q) => {
            target = format!("{path}?{q}");
            case.label("bad_query");
            Expect::Refused
        }
        Twist::Method(x) => {
            method.clone_from(x);
            case.label("wrong_method");
            if *x == m || (x == "HEAD" && m == "GET") { Expect::Either(op.clone()) } else { Expect::Refused }
        }
        Twist::Path(p) => {
            target = t.replacen(&path, p, 1);
            case.label("unknown_path");
            Expect::Refused
        }
        Twist::Body(h) => {
            if !takes_body {
                // a body nobody asked for
                body = Some(h.bytes.clone());
                Expect::Either(op.clone())
            } else {
                let bytes = if matches!(op, Op::Fill { .. }) && h.wrap < 6 {
                    let mut f = rc::MAGIC.to_vec();
                    f.push(h.wrap % 4);
                    f.extend(rc::enc_binary(&h.bytes, h.wrap % 4, 7));
                    f
                } else {
                    h.bytes.clone()
                };
                let e = with_body(op, &bytes)?;
                body = Some(bytes);
                match e {
                    Body::Asks(op) => {
                        case.label("body_readable");
                        Expect::Served(op)
                    }
                    Body::Unreadable => {
                        case.label("body_unreadable");
                        Expect::Refused
                    }
                    Body::Bomb => return Ok(()),
                }
            }
        }
        Twist::Cut(n) => {
            let full = b.clone().unwrap_or_default();
            let keep = if full.is_empty() { 0 } else { *n as usize % full.len() };
            let cut = full[..keep].to_vec();
            let e = if takes_body { with_body(op, &cut)? } else { Body::Asks(op.clone()) };
            body = Some(cut);
            case.label("body_cut");
            match e {
                Body::Asks(op) => Expect::Served(op),
                Body::Unreadable => Expect::Refused,
                Body::Bomb => return Ok(()),
            }
        }
        Twist::Chunked(n) => {
            chunk = Some(*n as usize + 1);
            body = Some(b.clone().unwrap_or_default());
            case.label("chunked");
            Expect::Served(op.clone())
        }
        Twist::Header(k, v) => {
            headers.push((k.clone(), v.clone()));
            Expect::Served(op.clone())
        }
        Twist::HangUp(n) => {
            use std::io::{Read, Write};
            let full = raw_request(m, &t, &[], b.as_deref(), None);
            if !takes_body {
                return Ok(());
            }
            let blen = b.as_ref().map_or(0, Vec::len);
            if blen == 0 {
                return Ok(());
            }
            case.label("hung_up_inside_body");
            let keep = full.len() - 1 - (*n as usize % blen);
            let mut x = std::net::TcpStream::connect(d.addr()).map_err(|e| Fail::Violation(format!("cannot connect: {e}")))?;
            let _ = x.write_all(&full[..keep]);
            let _ = x.shutdown(std::net::Shutdown::Write);
            let _ = x.set_read_timeout(Some(Duration::from_secs(20)));
            let mut out = vec![];
            let _ = x.read_to_end(&mut out);
            ensure!(!out.starts_with(b"HTTP/1.1 2") && !out.starts_with(b"HTTP/1.1 5"), "half a request is answered with {:?}", String::from_utf8_lossy(&out[..out.len().min(40)]));
            return Ok(());
        }
    };
    // the server may hang up on a long body it does not read, and the answer be lost with it
    if !takes_body || (matches!(expect, Expect::Refused | Expect::Either(_)) && !matches!(twist, Twist::Body(_) | Twist::Cut(_))) {
        if let Some(b) = &mut body {
            b.truncate(2000);
        }
    }
    c.hang_up();
    let raw = raw_request(&method, &target, &headers, body.as_deref(), chunk);
    let r = c.raw(&raw, method == "HEAD").map_err(|e| e.fail("request"))?;
    c.hang_up();
    match expect {
        Expect::Refused => {
            ensure!((400..500).contains(&r.status), "answered with {} instead of a client error ({})", r.status, truncate(&String::from_utf8_lossy(&r.body), 100));
        }
        Expect::Served(op) => {
            let want = apply(s, &op);
            check_answer(&want, &r).or_else(violation)?;
        }
        Expect::Either(op) => {
            if (400..500).contains(&r.status) {
                // it may also be what the operation itself answers
                let mut s2 = s.clone();
                if check_answer(&apply(&mut s2, &op), &r).is_ok() {
                    *s = s2;
                }
            } else if method != "HEAD" {
                let want = apply(s, &op);
                check_answer(&want, &r).or_else(violation)?;
            }
        }
    }
    Ok(())
}
fn twist(t: Tier) -> BoxedStrategy<Twist> {
    let w = |v: &[&str]| prop::sample::select(v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
    prop_oneof![
        2 => any::<u8>().prop_map(Twist::Without),
        1 => any::<u8>().prop_map(Twist::Twice),
        2 => (any::<u8>(), w(&["", "1", "0", "yes", "no", "True", "TRUE", "t", "null", "truee", "%00", "true%20", "+true", "2"])).prop_map(|(i, v)| Twist::IllTyped(i, v)),
        1 => (any::<u8>(), w(&["DB_NAME", "dbname", "name", "db_name%20", "x", ""])).prop_map(|(i, v)| Twist::Renamed(i, v)),
        2 => w(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "FOO"]).prop_map(Twist::Method),
        1 => w(&["/", "/v1", "/v1/", "/v1/add_db/", "/v1/add_dbs", "/v2/add_db", "/V1/add_db", "/v1//add_kv", "/v1/../v1/add_kv", "/add_kv", "/healthcheck/", "/v1/get_value/x", "/v1/%61dd_db", "/.", "/v1/healthcheck"]).prop_map(Twist::Path),
        1 => Just(Twist::NoQuery),
        1 => w(&["", "&", "=", "&&&", "db_name", "%", "%zz=%zz", "overwrite_existing=true", "db_name=a;overwrite_existing=true", "key=k", "[]=1", "a=b=c"]).prop_map(Twist::Query),
        4 => hostile_value(t).prop_map(|mut h| { h.bytes.truncate(60_000); Twist::Body(h) }),
        3 => c04_store_mut(t).prop_map(|h| {
            let mut bytes = h.bytes;
            if h.wrap == 7 {
                let mut f = rc::MAGIC.to_vec();
                f.extend(bytes);
                bytes = f;
            }
            Twist::Body(Hostile { bytes, wrap: 6 })
        }),
        3 => any::<u16>().prop_map(Twist::Cut),
        1 => any::<u8>().prop_map(Twist::Chunked),
        1 => (w(&["content-type", "accept", "x-y", "range", "if-match", "accept-encoding", "content-encoding"]), w(&["application/json", "*/*", "bytes=0-1", "gzip", "text/plain"])).prop_map(|(k, v)| Twist::Header(k, v)),
        1 => any::<u16>().prop_map(Twist::HangUp),
    ]
    .boxed()
}
fn garbage() -> BoxedStrategy<Vec<u8>> {
    let w = |v: &[&[u8]]| prop::sample::select(v.iter().map(|s| s.to_vec()).collect::<Vec<_>>());
    prop_oneof![
        2 => vec(any::<u8>(), 0..200),
        3 => w(&[
            b"", b"\r\n\r\n", b"GET", b"GET / HTTP/9.9\r\n\r\n", b"GET  /v1/get_db HTTP/1.1\r\n\r\n", b"PUT /v1/add_kv HTTP/1.1\r\ncontent-length: 99999999999999999999\r\n\r\n",
            b"PUT /v1/add_db_with_content?db_name=a&overwrite_existing=true HTTP/1.1\r\nhost: x\r\ncontent-length: 4294967296\r\n\r\nabc",
            b"PUT /v1/add_db_with_content?db_name=a&overwrite_existing=true HTTP/1.1\r\nhost: x\r\ncontent-length: -1\r\n\r\nabc",
            b"PUT /v1/add_kv?db_name=a&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n",
            b"PUT /v1/add_kv?db_name=a&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n5\r\nab",
            b"POST /v1/add_db?db_name=q&overwrite_existing=tr", b"\x16\x03\x01\x02\x00\x01\x00", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\xff\x04\x00\x00\x00\x00\x00",
            b"GET /v1/get_db?db_name=\xff HTTP/1.1\r\nhost: x\r\n\r\n", b"CONNECT / HTTP/1.1\r\n\r\n",
        ]),
    ]
    .boxed()
}
fn c23_steps(t: Tier) -> BoxedStrategy<Vec<HStep>> {
    let steps = vec(
        prop_oneof![
            4 => dop(t, dbname).prop_map(HStep::Good),
            8 => (dop(t, dbname), twist(t)).prop_map(|(o, t)| HStep::Bad(o, t)),
            3 => (prop_oneof![
                    (dbname(), any::<bool>(), dstore(t)).prop_map(|(db, over, with)| Op::Fill { db, over, with }),
                    (dbname(), dkey(), any::<bool>(), any::<bool>(), dval(t)).prop_map(|(db, key, create, over, val)| Op::AddKv { db, key, create, over, val }),
                ], twist(t)).prop_map(|(o, t)| HStep::Bad(o, t)),
            1 => garbage().prop_map(HStep::Raw),
            1 => Just(HStep::Health),
        ],
        1..20,
    );
    (vocab(), steps)
        .prop_map(|(v, steps)| {
            steps
                .into_iter()
                .map(|s| match s {
                    HStep::Good(o) => HStep::Good(v.op(o)),
                    HStep::Bad(o, t) => HStep::Bad(v.op(o), t),
                    s => s,
                })
                .collect()
        })
        .boxed()
}
pub fn c23p() -> Property {
    Property {
        id: "C23",
        rule: "histories that mix good requests with malformed ones (parameters missing, doubled, ill-typed or renamed; wrong methods and paths; bodies cut, random, hostile; bytes that are not HTTP; connections that break off), each answer checked and everything read back at the end; non-trivial: at least one malformed request",
        level: "exploration",
        assumptions: &["whether a strange body is a valid store or value is asked of the library itself (C03 and C04 judge the library)"],
        checks: vec![Pbt::boxed_shards("malformed", 1_600, 40_000, 8, 300, c23_steps, c23)],
    }
}
