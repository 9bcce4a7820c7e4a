//! Running the real daemon under control: own port, own clock, own files, injected faults.
use crate::core::*;
use crate::harness_err;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{DirBuilderExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// An account without files of its own.
pub const UID: u32 = 54321;

pub mod ctl {
    pub const CLOCK_ON: usize = 0;
    pub const OFFSET: usize = 1;
    pub const PORT: usize = 2;
    pub const OPS: usize = 3;
    pub const ARM: usize = 4;
    pub const SEEN: usize = 5;
    pub const MODE: usize = 6;
    pub const STICKY: usize = 7;
    pub const HIT: usize = 8;
    pub const IDLE: usize = 9;
    pub const BUSY: usize = 11;
    pub const KIND: usize = 12;
    pub const SLOW_US: usize = 13;
    pub const SLOW_KIND: usize = 14;
    /// Kinds of file operation.
    pub const UNLINK: u64 = 7;
}
pub mod fault {
    pub const CRASH_BEFORE: u64 = 1;
    pub const CRASH_AFTER: u64 = 2;
    pub const CRASH_MID: u64 = 3;
    pub const FAIL_NOSPC: u64 = 4;
    pub const FAIL_IO: u64 = 5;
    pub const SHORT_WRITE: u64 = 6;
}

/// Scratch of this process: binaries everyone may run, and one folder per case. Removed by the
/// supervising parent (it is inside its folder).
pub struct Env {
    pub bin: PathBuf,
    pub root: PathBuf,
}
static ENV: OnceLock<Result<Env, String>> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn setup() -> Result<Env, String> {
    let target = std::env::var("VERIF_TARGET").unwrap_or_else(|_| "/verif/target".into());
    let root = match std::env::var_os("VH_SCRATCH") {
        Some(d) => PathBuf::from(d),
        None => {
            let d = std::env::temp_dir().join(format!("vh-daemon-{}", std::process::id()));
            let _ = std::fs::create_dir(&d);
            d
        }
    };
    let bin = root.join("bin");
    let e = |e: std::io::Error| e.to_string();
    std::fs::DirBuilder::new().mode(0o755).recursive(true).create(&bin).map_err(e)?;
    std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).map_err(e)?;
    for (from, to) in [("repo/debug/sourisd", "sourisd"), ("repo/debug/mouse", "mouse"), ("shim.so", "shim.so")] {
        std::fs::copy(Path::new(&target).join(from), bin.join(to)).map_err(|x| format!("{from}: {x}"))?;
        std::fs::set_permissions(bin.join(to), std::fs::Permissions::from_mode(0o755)).map_err(e)?;
    }
    Ok(Env { bin, root })
}
/// Removes the scratch folder if it is this process's own.
pub fn clean() {
    if let (Some(Ok(e)), None) = (ENV.get(), std::env::var_os("VH_SCRATCH")) {
        let _ = std::fs::remove_dir_all(&e.root);
    }
}
pub fn env() -> Result<&'static Env, Fail> {
    ENV.get_or_init(setup).as_ref().map_err(|e| harness_err!("cannot prepare the daemon: {e}"))
}

/// Hands a file to the daemon's account.
pub fn give(p: &Path) {
    own(p);
}
fn own(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap_or_default();
    unsafe { libc::chown(c.as_ptr(), UID, UID) };
}

/// One case's folder: `…/case-N/a/b/base`, all owned by the daemon's account, so that names
/// with dot segments stay inside the case's folder.
pub struct Place {
    pub dir: PathBuf,
    pub base: PathBuf,
    pub log: PathBuf,
}
impl Place {
    pub fn new() -> Result<Self, Fail> {
        let e = env()?;
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = e.root.join(format!("case-{n}"));
        let mut p = dir.clone();
        for part in ["", "a", "b", "base"] {
            if !part.is_empty() {
                p.push(part);
            }
            std::fs::create_dir(&p).map_err(|x| harness_err!("{}: {x}", p.display()))?;
            own(&p);
        }
        let log = dir.join("log");
        std::fs::write(&log, b"").map_err(|x| harness_err!("{x}"))?;
        own(&log);
        Ok(Self { base: p, log, dir })
    }
    /// Every file below the case's folder (not its own control files), relative to it, with contents.
    pub fn files(&self) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
        fn walk(d: &Path, root: &Path, out: &mut std::collections::BTreeMap<PathBuf, Vec<u8>>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let p = e.path();
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        walk(&p, root, out);
                    }
                    _ => {
                        if let Ok(r) = p.strip_prefix(root) {
                            out.insert(r.to_path_buf(), std::fs::read(&p).unwrap_or_default());
                        }
                    }
                }
            }
        }
        let mut out = Default::default();
        walk(&self.dir, &self.dir, &mut out);
        out.retain(|p, _| p != Path::new("log") && p != Path::new("ctl"));
        out
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        if std::env::var_os("VH_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

pub struct Daemon {
    child: Child,
    ctl: *mut u64,
    pub port: u16,
}
unsafe impl Send for Daemon {}
unsafe impl Sync for Daemon {}

#[derive(Debug)]
pub enum StartError {
    /// The daemon ended by itself before it answered.
    Ended(String),
    Harness(String),
}
impl StartError {
    pub fn fail(self) -> Fail {
        match self {
            Self::Ended(m) => Fail::Violation(format!("the daemon does not start: {m}")),
            Self::Harness(m) => Fail::Harness(m),
        }
    }
}

/// How much the daemons log: all there is for some properties, as they come for others.
static LOGS: std::sync::OnceLock<Option<&'static str>> = std::sync::OnceLock::new();
pub fn logs_for(prop: &str) {
    let _ = LOGS.set(match prop {
        "C18" | "C21" | "C22" => Some("trace"),
        "C19" | "C25" => Some("off"),
        _ => None,
    });
}
impl Daemon {
    pub fn start(place: &Place) -> Result<Self, StartError> {
        Self::start_with(place, |_| {})
    }
    pub fn start_with(place: &Place, arm: impl FnOnce(&Daemon)) -> Result<Self, StartError> {
        let h = |e: String| StartError::Harness(e);
        let e = match env() {
            Ok(e) => e,
            Err(f) => return Err(h(format!("{f:?}"))),
        };
        let ctl_path = place.dir.join("ctl");
        let _ = std::fs::remove_file(&ctl_path);
        std::fs::write(&ctl_path, [0_u8; 4096]).map_err(|x| h(x.to_string()))?;
        own(&ctl_path);
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&ctl_path).map_err(|x| h(x.to_string()))?;
        let p = unsafe {
            use std::os::fd::AsRawFd;
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(h("mmap".into()));
        }
        let ctl = p.cast::<u64>();
        unsafe { AtomicU64::from_ptr(ctl) }.store(1, Ordering::SeqCst);
        let err = std::fs::File::create(place.dir.join("stderr")).map_err(|x| h(x.to_string()))?;
        let mut cmd = Command::new(e.bin.join("sourisd"));
        cmd.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &place.dir)
            .env("LANG", "C.UTF-8")
            .env("BASE_LOCATION", &place.base)
            .env("VERIF_BASE", &place.base)
            .env("VERIF_CTL", &ctl_path)
            .env("VERIF_LOG", &place.log)
            .env("LD_PRELOAD", e.bin.join("shim.so"))
            .envs(std::env::var("VH_RUST_LOG").ok().or_else(|| LOGS.get().copied().flatten().map(str::to_string)).map(|l| ("RUST_LOG", l)))
            .env("RUST_BACKTRACE", "0")
            .env("RUST_LIB_BACKTRACE", "0")
            .env("RUST_SPANTRACE", "0")
            .current_dir(&place.dir)
            .stdin(Stdio::null())
            .stdout(if std::env::var_os("VH_RUST_LOG").is_some() { Stdio::inherit() } else { Stdio::null() })
            .stderr(err)
            .uid(UID)
            .gid(UID);
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::setpgid(0, 0);
                libc::signal(libc::SIGINT, libc::SIG_DFL);
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|x| h(format!("spawn sourisd: {x}")))?;
        let mut d = Self { child, ctl, port: 0 };
        arm(&d);
        let t0 = Instant::now();
        loop {
            let port = d.get(ctl::PORT) as u16;
            if port != 0 {
                d.port = port;
                if TcpStream::connect_timeout(&d.addr(), Duration::from_secs(5)).is_ok() {
                    d.await_handlers();
                    d.await_timer();
                    return Ok(d);
                }
            }
            if let Ok(Some(s)) = d.child.try_wait() {
                let msg = std::fs::read_to_string(place.dir.join("stderr")).unwrap_or_default();
                return Err(StartError::Ended(format!("{s}: {}", truncate(&msg, 500))));
            }
            if t0.elapsed() > Duration::from_secs(60) {
                return Err(StartError::Ended("it does not listen within 60 s".into()));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// It listens a moment before it is ready to be asked to stop: waits for its signal handler.
    fn await_handlers(&self) {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(3) {
            let st = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
            let caught = st.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|v| u64::from_str_radix(v.trim(), 16).ok()).unwrap_or(0);
            let both = 1 << (libc::SIGTERM - 1) | 1 << (libc::SIGINT - 1);
            if caught & both == both {
                return;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    /// Its saver may start a moment later still: waits until something in it waits for a time.
    fn await_timer(&self) {
        let t0 = Instant::now();
        while self.get(ctl::IDLE) < 2 && t0.elapsed() < Duration::from_secs(3) {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    pub fn addr(&self) -> SocketAddr {
        SocketAddr::from(([127, 0, 0, 1], self.port))
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { AtomicU64::from_ptr(self.ctl.add(i)) }
    }
    pub fn get(&self, i: usize) -> u64 {
        self.cell(i).load(Ordering::SeqCst)
    }
    pub fn set(&self, i: usize, v: u64) {
        self.cell(i).store(v, Ordering::SeqCst);
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    /// Lets eleven seconds pass for the daemon, and waits until the save that brings is over.
    /// False if the daemon ended meanwhile.
    pub fn save(&mut self, settle: Duration) -> Result<bool, Fail> {
        self.cell(ctl::OFFSET).fetch_add(11_000_000_000, Ordering::SeqCst);
        self.set(ctl::IDLE, 0);
        let t0 = Instant::now();
        loop {
            if !self.alive() {
                return Ok(false);
            }
            // the saver waits for its timer again and no file operation is under way
            if self.get(ctl::IDLE) >= 4 && self.get(ctl::BUSY) == 0 {
                let ops = self.get(ctl::OPS);
                std::thread::sleep(settle);
                if self.get(ctl::OPS) == ops && self.get(ctl::IDLE) >= 4 {
                    return Ok(true);
                }
            }
            if t0.elapsed() > Duration::from_secs(60) {
                return Err(Fail::Violation("a save does not end within 60 s".into()));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// Starts letting time pass without waiting for the save.
    pub fn pass_time(&self) {
        self.cell(ctl::OFFSET).fetch_add(11_000_000_000, Ordering::SeqCst);
    }
    pub fn arm(&self, at: u64, mode: u64, sticky: bool) {
        self.set(ctl::SEEN, 0);
        self.set(ctl::HIT, 0);
        self.set(ctl::MODE, mode);
        self.set(ctl::STICKY, u64::from(sticky));
        self.set(ctl::ARM, at);
    }
    pub fn disarm(&self) {
        self.set(ctl::ARM, 0);
    }
    pub fn signal(&self, sig: i32) {
        unsafe { libc::kill(self.child.id() as i32, sig) };
    }
    /// Waits for the daemon to end. Time passes for it too, if it takes long.
    pub fn wait(&mut self, limit: Duration) -> Result<std::process::ExitStatus, Fail> {
        let t0 = Instant::now();
        let mut given = 1;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Ok(s);
            }
            if t0.elapsed() > limit {
                return Err(Fail::Violation(format!("asked to stop, the daemon does not end within {limit:?}")));
            }
            if t0.elapsed().as_secs() >= given {
                given += 1;
                self.cell(ctl::OFFSET).fetch_add(1_000_000_000, Ordering::SeqCst);
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// Stops it as a service manager would.
    pub fn stop(mut self) -> TestResult {
        self.signal(libc::SIGTERM);
        let s = self.wait(Duration::from_secs(60))?;
        if !s.success() {
            return violation(format!("asked to stop, the daemon ends with {s}"));
        }
        Ok(())
    }
    pub fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drop for Daemon {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe { libc::munmap(self.ctl.cast(), 4096) };
    }
}

// ---------------------------------------------------------------- HTTP
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Rsp {
    pub status: u16,
    pub body: Vec<u8>,
}
/// No answer: the connection broke before a whole answer came.
#[derive(Debug)]
pub struct NoAnswer(pub String);
impl NoAnswer {
    pub fn fail(self, what: &str) -> Fail {
        Fail::Violation(format!("{what}: no answer ({})", self.0))
    }
}

pub fn enc(s: &str) -> String {
    enc_bytes(s.as_bytes())
}
pub fn enc_bytes(s: &[u8]) -> String {
    let mut o = String::new();
    for b in s {
        if b.is_ascii_alphanumeric() || b"-._~".contains(b) {
            o.push(*b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

pub struct Client {
    addr: SocketAddr,
    conn: Option<TcpStream>,
}
impl Client {
    pub fn new(d: &Daemon) -> Self {
        Self { addr: d.addr(), conn: None }
    }
    /// The next request goes over a new connection.
    pub fn hang_up(&mut self) {
        self.conn = None;
    }
    fn connect(&mut self) -> Result<(), NoAnswer> {
        if self.conn.is_none() {
            let c = TcpStream::connect_timeout(&self.addr, Duration::from_secs(20)).map_err(|e| NoAnswer(format!("connect: {e}")))?;
            let _ = c.set_nodelay(true);
            let _ = c.set_read_timeout(Some(Duration::from_secs(60)));
            let _ = c.set_write_timeout(Some(Duration::from_secs(60)));
            self.conn = Some(c);
        }
        Ok(())
    }
    pub fn req(&mut self, method: &str, target: &str, body: Option<&[u8]>) -> Result<Rsp, NoAnswer> {
        let mut raw = format!("{method} {target} HTTP/1.1\r\nhost: localhost\r\n").into_bytes();
        if let Some(b) = body {
            raw.extend(format!("content-length: {}\r\n", b.len()).into_bytes());
        } else if method == "POST" || method == "PUT" {
            raw.extend(b"content-length: 0\r\n");
        }
        raw.extend(b"\r\n");
        if let Some(b) = body {
            raw.extend(b);
        }
        self.raw(&raw, method == "HEAD")
    }
    pub fn raw(&mut self, raw: &[u8], head: bool) -> Result<Rsp, NoAnswer> {
        self.connect()?;
        let r = self.exchange(raw, head);
        match r {
            Ok((r, keep)) => {
                if !keep {
                    self.conn = None;
                }
                Ok(r)
            }
            Err(e) => {
                self.conn = None;
                Err(e)
            }
        }
    }
    fn exchange(&mut self, raw: &[u8], no_body: bool) -> Result<(Rsp, bool), NoAnswer> {
        let c = self.conn.as_mut().ok_or_else(|| NoAnswer("no connection".into()))?;
        let sent = c.write_all(raw);
        let mut buf = Vec::with_capacity(512);
        let mut tmp = [0_u8; 16384];
        let head_end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            match c.read(&mut tmp) {
                Ok(0) => return Err(NoAnswer(format!("closed after {} bytes{}", buf.len(), if sent.is_err() { " while sending" } else { "" }))),
                Ok(n) => buf.extend(&tmp[..n]),
                Err(e) => return Err(NoAnswer(e.to_string())),
            }
        };
        let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
        let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| NoAnswer(format!("bad status line {}", truncate(&head, 80))))?;
        let mut len = None;
        let mut chunked = false;
        let mut keep = true;
        for l in head.lines().skip(1) {
            let Some((k, v)) = l.split_once(':') else { continue };
            let (k, v) = (k.trim().to_ascii_lowercase(), v.trim().to_ascii_lowercase());
            match k.as_str() {
                "content-length" => len = v.parse::<usize>().ok(),
                "transfer-encoding" => chunked = v.contains("chunked"),
                "connection" => keep = !v.contains("close"),
                _ => {}
            }
        }
        let mut body = buf[head_end + 4..].to_vec();
        if no_body || status == 204 || status == 304 {
            return Ok((Rsp { status, body: vec![] }, keep));
        }
        if chunked {
            // small answers only: read until the last chunk
            while !body.ends_with(b"0\r\n\r\n") {
                match c.read(&mut tmp) {
                    Ok(0) => return Err(NoAnswer("closed inside the answer".into())),
                    Ok(n) => body.extend(&tmp[..n]),
                    Err(e) => return Err(NoAnswer(e.to_string())),
                }
            }
            let mut out = vec![];
            let mut rest = &body[..];
            while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
                let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..i]).trim(), 16).unwrap_or(0);
                if n == 0 || rest.len() < i + 2 + n {
                    break;
                }
                out.extend(&rest[i + 2..i + 2 + n]);
                rest = &rest[(i + 4 + n).min(rest.len())..];
            }
            return Ok((Rsp { status, body: out }, keep));
        }
        match len {
            Some(n) => {
                while body.len() < n {
                    match c.read(&mut tmp) {
                        Ok(0) => return Err(NoAnswer("closed inside the answer".into())),
                        Ok(k) => body.extend(&tmp[..k]),
                        Err(e) => return Err(NoAnswer(e.to_string())),
                    }
                }
                body.truncate(n);
            }
            None => {
                keep = false;
                let _ = c.read_to_end(&mut body);
            }
        }
        Ok((Rsp { status, body }, keep))
    }
}
