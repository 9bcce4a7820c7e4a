//! The engine: sharded, seeded property-based search with shrinking, breadcrumbs for
//! crashes, evidence, known findings and replay.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// Broken in a way that carries an exact signature; suppressed only if it is listed.
    Known { sig: String, msg: String },
    /// The harness itself could not do its work: never a violation.
    Harness(String),
}
pub type TestResult = Result<(), Fail>;

pub fn violation<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err($crate::core::Fail::Violation(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! harness_err {
    ($($arg:tt)*) => { $crate::core::Fail::Harness(format!($($arg)*)) };
}

/// What a case says about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Case {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<J>,
    pub labels: BTreeMap<String, u64>,
    pub per_check: BTreeMap<String, (u64, u64)>,
    pub known_hit: BTreeMap<String, u64>,
    pub violations: Vec<(String, String, J)>,
    pub harness_errors: Vec<String>,
    pub extra: BTreeMap<String, J>,
}

pub struct KnownFinding {
    pub sig: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub crumbs: Option<PathBuf>,
    pub totals: Mutex<Totals>,
    pub known: Vec<KnownFinding>,
    pub stop: AtomicBool,
    pub scale: f64,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn load_known(prop: &str) -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read(p) else { return vec![] };
    let Ok(J::Object(o)) = serde_json::from_slice::<J>(&s) else { return vec![] };
    o.get("findings")
        .and_then(J::as_array)
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| KnownFinding {
                    sig: e["signature"].as_str().unwrap_or_default().to_string(),
                    what: e["what"].as_str().unwrap_or_default().to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CAPTURE: RefCell<bool> = const { RefCell::new(false) };
}
static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// The code under test may print: its output goes nowhere until `unmute`.
fn mute() -> i32 {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        libc::dup2(null, 1);
        libc::close(null);
        keep
    }
}
fn unmute(keep: i32) {
    unsafe {
        libc::dup2(keep, 1);
        libc::close(keep);
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "non-string panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if CAPTURE.with(|c| *c.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            eprintln!("panic outside a case: {msg} at {loc}");
            FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{msg} at {loc}"));
        }
    }));
}

/// Runs `f`, turning a panic of the code under test into `Err((message, location))`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    let before = CAPTURE.with(|c| c.replace(true));
    let limited = crate::alloc::limit(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::limit(limited);
    CAPTURE.with(|c| *c.borrow_mut() = before);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src/")
}

pub fn exec_guarded(f: impl FnOnce() -> TestResult) -> TestResult {
    match guarded(f) {
        Ok(r) => r,
        Err((msg, loc)) => {
            if is_harness_location(&loc) {
                Err(Fail::Harness(format!("harness panicked: {msg} at {loc}")))
            } else {
                Err(Fail::Violation(format!("the code panicked: {msg} at {loc}")))
            }
        }
    }
}

/// A shared-memory slot that always holds the case now running on one shard.
pub struct Crumb {
    ptr: *mut u8,
    cap: usize,
}
unsafe impl Send for Crumb {}
impl Crumb {
    const CAP: usize = 64 << 20;
    pub fn new(dir: &Path, shard: usize) -> Option<Self> {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(dir.join(format!("crumb{shard}")))
            .ok()?;
        f.set_len(Self::CAP as u64).ok()?;
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::CAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Self { ptr: p.cast(), cap: Self::CAP })
    }
    pub fn put(&self, check: &str, json: &[u8]) {
        let total = check.len() + json.len() + 16;
        unsafe {
            std::ptr::write_volatile(self.ptr.cast::<u64>(), 0);
            if total > self.cap {
                return;
            }
            std::ptr::copy_nonoverlapping(check.as_ptr(), self.ptr.add(16), check.len());
            std::ptr::copy_nonoverlapping(json.as_ptr(), self.ptr.add(16 + check.len()), json.len());
            std::ptr::write_volatile(self.ptr.add(8).cast::<u64>(), json.len() as u64);
            std::ptr::write_volatile(self.ptr.cast::<u64>(), check.len() as u64);
        }
    }
    pub fn clear(&self) {
        unsafe { std::ptr::write_volatile(self.ptr.cast::<u64>(), 0) }
    }
    pub fn read(path: &Path) -> Option<(String, J)> {
        use std::io::Read;
        let mut f = std::fs::File::open(path).ok()?;
        let mut h = [0_u8; 16];
        f.read_exact(&mut h).ok()?;
        let nl = u64::from_le_bytes(h[0..8].try_into().ok()?) as usize;
        let jl = u64::from_le_bytes(h[8..16].try_into().ok()?) as usize;
        if nl == 0 || nl + jl > Self::CAP {
            return None;
        }
        let mut b = vec![0; nl + jl];
        f.read_exact(&mut b).ok()?;
        Some((String::from_utf8(b[..nl].to_vec()).ok()?, serde_json::from_slice(&b[nl..]).ok()?))
    }
}
impl Drop for Crumb {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.ptr.cast(), self.cap) };
    }
}

fn hash_bytes(name: &str, b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    name.hash(&mut h);
    b.hash(&mut h);
    h.finish()
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…(+{} bytes)", &s[..e], s.len() - e)
    }
}

pub trait Check: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx);
    fn replay(&self, ctx: &Ctx, input: &J) -> TestResult;
}

/// One property-based check over generated values of `T`.
pub struct Pbt<T, S> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
    pub max_shrink: u32,
    pub strategy: fn(Tier) -> S,
    pub test: fn(&T, &mut Case) -> TestResult,
}

impl<T, S> Pbt<T, S>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    S: Strategy<Value = T> + 'static,
{
    pub fn boxed(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: fn(Tier) -> S,
        test: fn(&T, &mut Case) -> TestResult,
    ) -> Box<dyn Check> {
        Box::new(Self { name, quick, thorough, shards: 8, max_shrink: 2000, strategy, test })
    }
    pub fn boxed_shards(
        name: &'static str,
        quick: u32,
        thorough: u32,
        shards: usize,
        max_shrink: u32,
        strategy: fn(Tier) -> S,
        test: fn(&T, &mut Case) -> TestResult,
    ) -> Box<dyn Check> {
        Box::new(Self { name, quick, thorough, shards, max_shrink, strategy, test })
    }

    fn shard(&self, ctx: &Ctx, shard: usize, cases: u32) {
        let mut seed = [0_u8; 32];
        for (i, chunk) in seed.chunks_mut(8).enumerate() {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (ctx.seed, self.name, shard as u64, i as u64, "vh").hash(&mut h);
            chunk.copy_from_slice(&h.finish().to_le_bytes());
        }
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
        );
        let strategy = (self.strategy)(ctx.tier);
        let crumb = ctx.crumbs.as_deref().and_then(|d| Crumb::new(d, shard));

        let mut local = Totals::default();
        for _ in 0..cases {
            if ctx.stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    local.harness_errors.push(format!("{}: generator: {e}", self.name));
                    break;
                }
            };
            let v = tree.current();
            let encoded = serde_json::to_vec(&v).unwrap_or_default();
            if let Some(c) = &crumb {
                c.put(self.name, &encoded);
            }
            let mut case = Case::default();
            let t0 = std::time::Instant::now();
            let r = exec_guarded(|| (self.test)(&v, &mut case));
            if t0.elapsed().as_secs() >= 1 && std::env::var_os("VH_VERBOSE").is_some() {
                eprintln!("slow {}: {:?} {}", self.name, t0.elapsed(), truncate(&String::from_utf8_lossy(&encoded), 3000));
            }
            local.evaluations += 1;
            for l in &case.labels {
                *local.labels.entry(format!("{}/{l}", self.name)).or_default() += 1;
            }
            if case.nontrivial {
                let fresh = local.distinct.insert(hash_bytes(self.name, &encoded));
                if fresh && local.samples.is_empty() && shard < 2 {
                    local.samples.push(json!({"check": self.name, "input": truncate(&String::from_utf8_lossy(&encoded), 600)}));
                }
            }
            match r {
                Ok(()) => {}
                Err(Fail::Known { sig, .. }) if ctx.known.iter().any(|k| k.sig == sig) => {
                    *local.known_hit.entry(sig).or_default() += 1;
                }
                Err(Fail::Harness(m)) => {
                    local.harness_errors.push(format!("{}: {m}", self.name));
                    ctx.stop.store(true, Ordering::Relaxed);
                    break;
                }
                Err(first) => {
                    ctx.stop.store(true, Ordering::Relaxed);
                    let mut best = (v, first);
                    let mut n = 0;
                    // a reproduction that is not minimal is better than none in time
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
                    if tree.simplify() {
                        while n < self.max_shrink && std::time::Instant::now() < until {
                            n += 1;
                            let cur = tree.current();
                            if let Some(c) = &crumb {
                                c.put(self.name, &serde_json::to_vec(&cur).unwrap_or_default());
                            }
                            let r = exec_guarded(|| (self.test)(&cur, &mut Case::default()));
                            let failed = match r {
                                Ok(()) | Err(Fail::Harness(_)) => false,
                                Err(Fail::Known { ref sig, .. }) if ctx.known.iter().any(|k| k.sig == *sig) => false,
                                Err(e) => {
                                    best = (cur, e);
                                    true
                                }
                            };
                            if failed {
                                if !tree.simplify() {
                                    break;
                                }
                            } else if !tree.complicate() {
                                break;
                            }
                        }
                    }
                    let msg = match best.1 {
                        Fail::Violation(m) => m,
                        Fail::Known { sig, msg } => format!("[{sig}] {msg}"),
                        Fail::Harness(m) => m,
                    };
                    local.violations.push((
                        self.name.to_string(),
                        msg,
                        serde_json::to_value(&best.0).unwrap_or(J::Null),
                    ));
                    break;
                }
            }
        }
        if let Some(c) = &crumb {
            c.clear();
        }
        let mut t = ctx.totals.lock().unwrap();
        t.evaluations += local.evaluations;
        let e = t.per_check.entry(self.name.to_string()).or_default();
        e.0 += local.evaluations;
        e.1 += local.distinct.len() as u64;
        t.distinct.extend(local.distinct);
        if t.samples.len() < 24 {
            t.samples.extend(local.samples);
        }
        for (k, v) in local.labels {
            *t.labels.entry(k).or_default() += v;
        }
        for (k, v) in local.known_hit {
            *t.known_hit.entry(k).or_default() += v;
        }
        t.violations.extend(local.violations);
        t.harness_errors.extend(local.harness_errors);
    }
}

impl<T, S> Check for Pbt<T, S>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    S: Strategy<Value = T> + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) {
        let cases = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let cases = ((f64::from(cases) * ctx.scale).ceil() as u32).max(1);
        let shards = self.shards.min(cases as usize).max(1);
        let t0 = std::time::Instant::now();
        std::thread::scope(|sc| {
            for s in 0..shards {
                let n = cases / shards as u32 + u32::from((s as u32) < cases % shards as u32);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .name(format!("shard{s}"))
                    .spawn_scoped(sc, move || self.shard(ctx, s, n))
                    .expect("spawn");
            }
        });
        if std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("  {} {:.1}s", self.name, t0.elapsed().as_secs_f64());
        }
    }
    fn replay(&self, _ctx: &Ctx, input: &J) -> TestResult {
        let v: T = serde_json::from_value(input.clone()).map_err(|e| harness_err!("cannot read replay input: {e}"))?;
        exec_guarded(|| (self.test)(&v, &mut Case::default()))
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub checks: Vec<Box<dyn Check>>,
}

pub fn write_evidence(ctx: &Ctx, p: &Property, wall: f64, violations: usize) {
    let t = ctx.totals.lock().unwrap();
    let mut cov = json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.distinct.len(),
        "rule": p.rule,
        "samples": t.samples,
        "classes": t.labels,
        "per_check": t.per_check.iter().map(|(k, v)| (k.clone(), json!({"evaluations": v.0, "distinct_nontrivial": v.1}))).collect::<serde_json::Map<_, _>>(),
        "known_findings_seen": t.known_hit,
    });
    for (k, v) in &t.extra {
        cov[k] = v.clone();
    }
    let e = json!({
        "property": ctx.prop,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", ctx.prop));
    if std::fs::write(&tmp, serde_json::to_vec_pretty(&e).unwrap_or_default()).is_ok() {
        let _ = std::fs::rename(tmp, dir.join(format!("{}.json", ctx.prop)));
    }
}

pub fn write_replay(prop: &str, check: &str, input: &J, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{check}.json"));
    let _ = std::fs::write(
        &p,
        serde_json::to_vec_pretty(&json!({"property": prop, "check": check, "input": input, "message": truncate(msg, 4000)}))
            .unwrap_or_default(),
    );
    p
}

/// Runs every check of one property. Exit code: 0 held, 1 violation, 2 harness error.
pub fn run_property(ctx: &Ctx, p: &Property) -> i32 {
    let t0 = std::time::Instant::now();
    // 1. the saved inputs (regressions, known findings) as plain checks
    let dir = verif_dir().join("regressions").join(&ctx.prop);
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    let crumb = ctx.crumbs.as_deref().and_then(|d| Crumb::new(d, 99));
    let mut replayed = 0;
    for f in files {
        let Ok(j) = std::fs::read(&f).map_err(|_| ()).and_then(|b| serde_json::from_slice::<J>(&b).map_err(|_| ())) else {
            ctx.totals.lock().unwrap().harness_errors.push(format!("unreadable regression {}", f.display()));
            continue;
        };
        let Some(c) = p.checks.iter().find(|c| c.name() == j["check"].as_str().unwrap_or("")) else {
            ctx.totals.lock().unwrap().harness_errors.push(format!("regression {} names no check", f.display()));
            continue;
        };
        if let Some(cr) = &crumb {
            cr.put(c.name(), &serde_json::to_vec(&j["input"]).unwrap_or_default());
        }
        replayed += 1;
        let r = c.replay(ctx, &j["input"]);
        let mut t = ctx.totals.lock().unwrap();
        match r {
            Ok(()) => {}
            Err(Fail::Known { sig, .. }) if ctx.known.iter().any(|k| k.sig == sig) => {
                *t.known_hit.entry(sig).or_default() += 1;
            }
            Err(Fail::Known { msg, .. } | Fail::Violation(msg)) => {
                t.violations.push((c.name().to_string(), format!("saved input {}: {msg}", f.display()), j["input"].clone()));
                ctx.stop.store(true, Ordering::Relaxed);
            }
            Err(Fail::Harness(m)) => t.harness_errors.push(m),
        }
    }
    if let Some(cr) = &crumb {
        cr.clear();
    }
    // 2. the search
    let out = mute();
    for c in &p.checks {
        if ctx.stop.load(Ordering::Relaxed) {
            break;
        }
        c.run(ctx);
    }
    unmute(out);
    {
        let mut t = ctx.totals.lock().unwrap();
        t.extra.insert("saved_inputs_replayed".into(), json!(replayed));
        let fp = FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner());
        for m in fp.iter() {
            t.harness_errors.push(format!("panic outside a case: {m}"));
        }
    }
    let (viol, errs, known) = {
        let t = ctx.totals.lock().unwrap();
        (t.violations.clone(), t.harness_errors.clone(), t.known_hit.clone())
    };
    write_evidence(ctx, p, t0.elapsed().as_secs_f64(), viol.len());
    for k in &ctx.known {
        if known.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {} [{}]", ctx.prop, k.what, k.sig);
        }
    }
    if let Some((check, msg, input)) = viol.first() {
        let path = write_replay(&ctx.prop, check, input, msg);
        println!("{}: {}", check, truncate(msg, 3000));
        println!("minimal input: {}", truncate(&input.to_string(), 2000));
        println!("VIOLATION property={} replay={}", ctx.prop, path.display());
        return 1;
    }
    if !errs.is_empty() {
        for e in errs.iter().take(5) {
            eprintln!("HARNESS-ERROR: {e}");
        }
        return 2;
    }
    let t = ctx.totals.lock().unwrap();
    println!(
        "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        ctx.prop,
        t.evaluations,
        t.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}
