//! vh: property-based checks of BurntNail/Souris.
mod alloc;
mod core;
mod daemon;
mod model;
mod p_axum;
mod p_build;
mod p_codec;
mod p_conc;
mod p_daemon;
mod p_cli;
mod p_client;
mod p_http;
mod p_json;
mod p_num;
mod p_persist;
mod p_text;
mod p_util;
mod refcodec;

use crate::core::*;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Capped = alloc::Capped;

fn property(id: &str) -> Option<Property> {
    daemon::logs_for(id);
    Some(match id {
        "C01" => p_codec::c01(),
        "C02" => p_codec::c02p(),
        "C03" => p_codec::c03p(),
        "C04" => p_codec::c04p(),
        "C05" => p_codec::c05p(),
        "C06" => p_util::c06p(),
        "C07" => p_util::c07p(),
        "C08" => p_util::c08p(),
        "C09" => p_num::c09p(),
        "C10" => p_num::c10p(),
        "C11" => p_num::c11p(),
        "C12" => p_num::c12p(),
        "C13" => p_num::c13p(),
        "C14" => p_json::c14p(),
        "C15" => p_json::c15p(),
        "C16" => p_json::c16p(),
        "C17" => p_json::c17p(),
        "C18" => p_daemon::c18p(),
        "C19" => p_conc::c19p(),
        "C20" => p_persist::c20p(),
        "C21" => p_persist::c21p(),
        "C22" => p_http::c22p(),
        "C23" => p_http::c23p(),
        "C24" => p_client::c24p(),
        "C25" => p_cli::c25p(),
        "C26" => p_codec::c26p(),
        "C27" => p_axum::c27p(),
        "C28" => p_text::c28p(),
        "C29" => p_build::c29p(),
        "C30" => p_codec::c30p(),
        _ => return None,
    })
}

fn env_ctx(prop: &str, crumbs: Option<PathBuf>) -> Ctx {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    Ctx {
        prop: prop.to_string(),
        tier,
        seed,
        crumbs,
        totals: Mutex::new(Totals::default()),
        known: load_known(prop),
        stop: AtomicBool::new(false),
        scale,
    }
}

fn scratch(tag: &str) -> PathBuf {
    let base = std::env::temp_dir();
    for i in 0.. {
        let p = base.join(format!("vh-{tag}-{}-{i}", std::process::id()));
        if std::fs::create_dir(&p).is_ok() {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            return p;
        }
    }
    unreachable!()
}

/// Runs `work` in a child so that aborts and stack overflows of the code under test are observed.
fn supervise(prop: &str) -> i32 {
    let crumbs = scratch("crumbs");
    let me = std::env::current_exe().expect("own path");
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 840 });
    let mut child = Command::new(&me).args(["work", prop]).arg(&crumbs).env("VH_SCRATCH", crumbs.join("scratch")).spawn().expect("spawn worker");
    let t0 = Instant::now();
    let mut seen: std::collections::HashMap<PathBuf, (u64, Instant)> = std::collections::HashMap::new();
    let mut next_look = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        if Instant::now() > next_look {
            next_look = Instant::now() + Duration::from_secs(5);
            if let Some((check, input)) = stuck(&crumbs, &mut seen) {
                let _ = child.kill();
                let _ = child.wait();
                let code = hung(&me, prop, &check, &input, t0);
                let _ = std::fs::remove_dir_all(&crumbs);
                return code;
            }
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let code = match status {
        None => {
            eprintln!("HARNESS-ERROR: {prop}: time limit reached");
            2
        }
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            match (s.code(), s.signal()) {
                (Some(c), _) => c,
                (None, Some(sig)) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL].contains(&sig) => crashed(&me, prop, &crumbs, sig, t0),
                (None, sig) => {
                    eprintln!("HARNESS-ERROR: {prop}: worker ended by signal {sig:?}");
                    2
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&crumbs);
    code
}

/// A case that has been running for far longer than any case needs.
fn stuck(crumbs: &Path, seen: &mut std::collections::HashMap<PathBuf, (u64, Instant)>) -> Option<(String, serde_json::Value)> {
    for e in std::fs::read_dir(crumbs).ok()?.filter_map(|e| e.ok().map(|e| e.path())) {
        let Some((check, input)) = Crumb::read(&e) else {
            seen.remove(&e);
            continue;
        };
        let h = p_codec::hash_of(&(check.as_str(), input.to_string()));
        match seen.get(&e) {
            Some((old, since)) if *old == h => {
                if since.elapsed() > Duration::from_secs(HANG_S) {
                    return Some((check, input));
                }
            }
            _ => {
                seen.insert(e, (h, Instant::now()));
            }
        }
    }
    None
}
const HANG_S: u64 = 100;

fn hung(me: &Path, prop: &str, check: &str, input: &serde_json::Value, t0: Instant) -> i32 {
    let path = write_replay(prop, check, input, "the code under test does not finish");
    let Ok(mut c) = Command::new(me).arg("replay").arg(&path).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() else { return 2 };
    let t1 = Instant::now();
    loop {
        if let Ok(Some(_)) = c.try_wait() {
            eprintln!("HARNESS-ERROR: {prop}: a case seemed stuck but finishes on its own");
            let _ = std::fs::remove_file(&path);
            return 2;
        }
        if t1.elapsed() > Duration::from_secs(HANG_S) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let _ = c.kill();
    let _ = c.wait();
    println!("{check}: the code under test does not finish");
    println!("input: {}", truncate(&input.to_string(), 800));
    println!("VIOLATION property={prop} replay={}", path.display());
    let ctx = env_ctx(prop, None);
    if let Some(p) = property(prop) {
        let mut t = ctx.totals.lock().unwrap();
        t.evaluations = 1;
        t.samples.push(serde_json::json!({"check": check, "input": truncate(&input.to_string(), 600)}));
        drop(t);
        write_evidence(&ctx, &p, t0.elapsed().as_secs_f64(), 1);
    }
    1
}

fn crashed(me: &Path, prop: &str, crumbs: &Path, sig: i32, t0: Instant) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let mut entries: Vec<_> = std::fs::read_dir(crumbs).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    entries.sort();
    for e in entries {
        let Some((check, input)) = Crumb::read(&e) else { continue };
        let path = write_replay(prop, &check, &input, &format!("the process died with signal {sig}"));
        let s = Command::new(me).arg("replay").arg(&path).output();
        let Ok(s) = s else { continue };
        if let Some(sig) = s.status.signal() {
            println!("{check}: the process dies with signal {sig} (abort or stack overflow)");
            println!("{}", truncate(&String::from_utf8_lossy(&s.stderr), 400));
            println!("minimal input: {}", truncate(&input.to_string(), 800));
            println!("VIOLATION property={prop} replay={}", path.display());
            let ctx = env_ctx(prop, None);
            if let Some(p) = property(prop) {
                let mut t = ctx.totals.lock().unwrap();
                t.evaluations = 1;
                t.samples.push(serde_json::json!({"check": check, "input": truncate(&input.to_string(), 600)}));
                drop(t);
                write_evidence(&ctx, &p, t0.elapsed().as_secs_f64(), 1);
            }
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("HARNESS-ERROR: {prop}: worker died with signal {sig} and no saved case reproduces it");
    2
}

fn replay(file: &str) -> i32 {
    let Ok(b) = std::fs::read(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Ok(j) = serde_json::from_slice::<serde_json::Value>(&b) else {
        eprintln!("{file} is not JSON");
        return 2;
    };
    let prop = j["property"].as_str().unwrap_or_default().to_string();
    let Some(p) = property(&prop) else {
        eprintln!("unknown property");
        return 2;
    };
    let ctx = env_ctx(&prop, None);
    let Some(c) = p.checks.iter().find(|c| c.name() == j["check"].as_str().unwrap_or("")) else {
        eprintln!("unknown check");
        return 2;
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || c.replay(&ctx, &j["input"])).expect("spawn").join()
    });
    match r {
        Ok(Ok(())) => {
            println!("passes");
            0
        }
        Ok(Err(Fail::Known { sig, msg })) => {
            println!("KNOWN-FINDING candidate [{sig}]: {msg}");
            i32::from(!ctx.known.iter().any(|k| k.sig == sig))
        }
        Ok(Err(Fail::Violation(m))) => {
            println!("VIOLATION property={prop} replay={file}\n{m}");
            1
        }
        Ok(Err(Fail::Harness(m))) => {
            eprintln!("HARNESS-ERROR: {m}");
            2
        }
        Err(_) => 2,
    }
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
    let code = match a(1) {
        "check" => supervise(a(2)),
        "work" => {
            install_panic_hook();
            let ctx = env_ctx(a(2), Some(PathBuf::from(a(3))));
            match property(a(2)) {
                Some(p) => run_property(&ctx, &p),
                None => {
                    eprintln!("unknown property {}", a(2));
                    2
                }
            }
        }
        "replay" => {
            install_panic_hook();
            if std::env::var_os("VH_REPS").is_none() {
                // schedules vary: try a saved workload often
                std::env::set_var("VH_REPS", "100");
            }
            let c = replay(a(2));
            daemon::clean();
            c
        }
        _ => {
            eprintln!("usage: vh check PROP | vh replay FILE");
            2
        }
    };
    ExitCode::from(code as u8)
}
