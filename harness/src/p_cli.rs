//! C25: the command line tool, driven through a terminal, against the real daemon.
use crate::core::*;
use crate::daemon::*;
use crate::model::*;
use crate::p_daemon::*;
use crate::{ensure, harness_err};
use sourisdb::chrono::{Datelike, Timelike};
use sourisdb::chrono_tz;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use std::collections::BTreeMap;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Which database a command works on.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    /// The existing one with this number (modulo how many there are).
    Pick(u8),
    /// Names typed for a new one; for one that exists already, whether it is to be overwritten.
    New(Vec<(String, bool)>, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Doc {
    /// The JSON rendering of a store, with or without types.
    Of(MStore, bool),
    /// Any JSON object.
    Any(BTreeMap<String, MJ>),
    /// Not a JSON object.
    Broken(Vec<u8>),
    Missing,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mouse {
    Create { db: String, clear: bool },
    Add { target: Target, key: String, val: MV, style: Vec<u8>, sure: bool },
    Update { db: u8, key: u8, val: MV, style: Vec<u8>, sure: bool },
    Remove { db: u8, key: u8, sure: bool },
    RmDb { db: u8 },
    View { db: u8, debug: bool },
    Import { target: Target, doc: Doc, pretty: bool },
    /// To a new file, a place that does not exist, or (2 and above) over a file with that many lines in it.
    Export { db: u8, typed: bool, to: u16 },
    /// Someone else changes something.
    Other(Op),
    /// Any command while no daemon answers.
    Alone(u8),
}

// ---------------------------------------------------------------- a terminal
struct Screen {
    bytes: Mutex<(Vec<u8>, bool)>,
    more: Condvar,
}
struct Term {
    child: Child,
    master: OwnedFd,
    slave: OwnedFd,
    screen: Arc<Screen>,
    at: usize,
    reader: Option<std::thread::JoinHandle<()>>,
    out: PathBuf,
}
enum Stop {
    /// The tool ended instead of asking.
    Ended,
    Fail(Fail),
}
impl From<Fail> for Stop {
    fn from(f: Fail) -> Self {
        Stop::Fail(f)
    }
}
const PATIENCE: Duration = Duration::from_secs(60);
impl Term {
    fn run(place: &Place, port: u16, args: &[&std::ffi::OsStr]) -> Result<Self, Fail> {
        let e = env()?;
        let (mut m, mut s) = (0, 0);
        let size = libc::winsize { ws_row: 4000, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        let (master, slave) = unsafe {
            // raw from the start: what is typed ahead is kept as it is
            let mut t: libc::termios = std::mem::zeroed();
            libc::cfmakeraw(&mut t);
            t.c_cflag |= libc::CREAD;
            t.c_cc[libc::VMIN] = 1;
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), &t, &size) != 0 {
                return Err(harness_err!("openpty: {}", std::io::Error::last_os_error()));
            }
            for fd in [m, s] {
                libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
            }
            (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s))
        };
        let dup = |f: &OwnedFd| f.try_clone().map_err(|x| harness_err!("dup: {x}"));
        let out = place.dir.join("stdout");
        let so = std::fs::File::create(&out).map_err(|x| harness_err!("{x}"))?;
        let mut cmd = Command::new(e.bin.join("mouse"));
        cmd.args(args)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &place.dir)
            .env("LANG", "C.UTF-8")
            .env("TZ", "UTC")
            .env("TERM", "xterm")
            .env("CLICOLOR", "0")
            .env("VERIF_PORT", port.to_string())
            .env("LD_PRELOAD", e.bin.join("shim.so"))
            .env("RUST_BACKTRACE", "0")
            .current_dir(&place.dir)
            .stdin(Stdio::from(dup(&slave)?))
            .stdout(so)
            .stderr(Stdio::from(dup(&slave)?))
            .uid(UID)
            .gid(UID);
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::setsid();
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|x| harness_err!("spawn mouse: {x}"))?;
        let screen = Arc::new(Screen { bytes: Mutex::new((vec![], false)), more: Condvar::new() });
        let (sc, fd) = (screen.clone(), dup(&master)?);
        let reader = std::thread::spawn(move || {
            use std::io::Read;
            let mut f = std::fs::File::from(fd);
            let mut tmp = [0_u8; 65536];
            loop {
                let n = match f.read(&mut tmp) {
                    Ok(n) if n > 0 => n,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    _ => 0,
                };
                let mut g = sc.bytes.lock().unwrap_or_else(|p| p.into_inner());
                g.0.extend(&tmp[..n]);
                g.1 = n == 0;
                let end = g.1;
                drop(g);
                sc.more.notify_all();
                if end {
                    return;
                }
            }
        });
        Ok(Self { child, master, slave, screen, at: 0, reader: Some(reader), out })
    }
    fn seen(&self) -> String {
        let g = self.screen.bytes.lock().unwrap_or_else(|p| p.into_inner());
        let s = plain(&g.0);
        let n = s.chars().count();
        s.chars().skip(n.saturating_sub(300)).collect()
    }
    /// Waits until `found` finds what it looks for in what came since the last match.
    fn wait<R>(&mut self, what: &str, mut found: impl FnMut(&[u8]) -> Option<(R, usize)>) -> Result<R, Stop> {
        let t0 = Instant::now();
        loop {
            let ended = !matches!(self.child.try_wait(), Ok(None));
            let g = self.screen.bytes.lock().unwrap_or_else(|p| p.into_inner());
            if let Some((r, n)) = found(&g.0[self.at..]) {
                self.at += n;
                return Ok(r);
            }
            drop(g);
            if ended {
                // what it wrote last may still be under way
                std::thread::sleep(Duration::from_millis(20));
                let g = self.screen.bytes.lock().unwrap_or_else(|p| p.into_inner());
                if let Some((r, n)) = found(&g.0[self.at..]) {
                    self.at += n;
                    return Ok(r);
                }
                return Err(Stop::Ended);
            }
            if t0.elapsed() > PATIENCE {
                return Err(Stop::Fail(Fail::Violation(format!("the tool does not come to ask {what:?}; it shows …{:?}", self.seen()))));
            }
            let g = self.screen.bytes.lock().unwrap_or_else(|p| p.into_inner());
            let _ = self.screen.more.wait_timeout(g, Duration::from_millis(5));
        }
    }
    fn expect(&mut self, what: &str) -> Result<(), Stop> {
        self.wait(what, |b| find(b, what.as_bytes()).map(|i| ((), i + what.len())))
    }
    /// Types keys, never more than the terminal's buffer takes as one piece.
    fn keys(&mut self, text: &str) -> Result<(), Stop> {
        use std::io::Write;
        let mut f = std::fs::File::from(self.master.try_clone().map_err(|x| harness_err!("dup: {x}"))?);
        let mut rest = text;
        while !rest.is_empty() {
            let mut n = rest.len().min(200);
            while !rest.is_char_boundary(n) {
                n -= 1;
            }
            let t0 = Instant::now();
            loop {
                let mut left: libc::c_int = 0;
                unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut left) };
                if left < 1000 {
                    break;
                }
                if !matches!(self.child.try_wait(), Ok(None)) {
                    return Err(Stop::Ended);
                }
                if t0.elapsed() > PATIENCE {
                    return Err(Stop::Fail(Fail::Violation(format!("the tool reads no more keys; it shows …{:?}", self.seen()))));
                }
                std::thread::sleep(Duration::from_micros(100));
            }
            f.write_all(rest[..n].as_bytes()).map_err(|x| harness_err!("typing: {x}"))?;
            rest = &rest[n..];
        }
        Ok(())
    }
    /// The items of a list to choose from.
    fn items(&mut self, what: &str, n: usize) -> Result<Vec<String>, Stop> {
        self.expect(what)?;
        self.wait(what, |b| {
            let t = plain(b);
            let ls: Vec<&str> = t.split('\n').collect();
            (ls.len() > n + 1).then(|| (ls[1..=n].iter().map(|l| l.chars().skip(2).collect()).collect(), 0))
        })
    }
    /// Gives up the last other end of the terminal: the reader reads the rest and ends.
    fn hang_up(&mut self) {
        if let Some(r) = self.reader.take() {
            if let Ok(n) = std::fs::OpenOptions::new().read(true).write(true).open("/dev/null") {
                unsafe { libc::dup3(n.as_raw_fd(), self.slave.as_raw_fd(), libc::O_CLOEXEC) };
            }
            let _ = r.join();
        }
    }
    /// How it ended, what it printed, and what it said on the terminal.
    fn end(mut self) -> Result<(Option<i32>, String, String), Fail> {
        let t0 = Instant::now();
        let st = loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                break s;
            }
            if t0.elapsed() > PATIENCE {
                return violation(format!("the tool does not end; it shows …{:?}", self.seen()));
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        self.hang_up();
        let out = std::fs::read(&self.out).unwrap_or_default();
        let g = self.screen.bytes.lock().unwrap_or_else(|p| p.into_inner());
        let err = plain(&g.0);
        drop(g);
        Ok((st.code(), String::from_utf8_lossy(&out).into_owned(), err))
    }
}
impl Drop for Term {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.hang_up();
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
/// Without control sequences.
fn plain(b: &[u8]) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            i += 2;
            while i < b.len() && !(0x40..0x7f).contains(&b[i]) {
                i += 1;
            }
        } else if b[i] != b'\r' {
            o.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}

// ---------------------------------------------------------------- entering a value
struct Script<'a> {
    say: Vec<(String, String)>,
    style: &'a [u8],
    used: usize,
    dir: &'a Path,
    files: usize,
}
const TYPES: [&str; 16] = [
    "Character", "String", "Binary", "Boolean", "Integer", "Imaginary", "Timestamp", "JSON", "Null", "DoubleFloat", "Array", "Map", "Timezone", "Ipv4Addr", "Ipv6Addr", "SingleFloat",
];
fn subsequence(needle: &str, hay: &str) -> bool {
    let mut h = hay.chars().map(|c| c.to_ascii_lowercase());
    needle.chars().all(|c| h.any(|x| x == c.to_ascii_lowercase()))
}
impl Script<'_> {
    fn next(&mut self) -> u8 {
        let r = self.style.get(self.used % self.style.len().max(1)).copied().unwrap_or(0);
        self.used += 1;
        r.wrapping_add(((self.used / self.style.len().max(1)) as u8).wrapping_mul(37))
    }
    fn push(&mut self, wait: &str, keys: impl Into<String>) {
        self.say.push((wait.into(), keys.into()));
    }
    fn line(&mut self, wait: &str, text: &str) {
        self.push(wait, format!("{text}\r"));
    }
    fn yes(&mut self, wait: &str, y: bool) {
        let k = match (y, self.next() % 4) {
            (true, 0) => "Y",
            (true, _) => "y",
            (false, 0) => "N",
            (false, _) => "n",
        };
        self.push(wait, k);
    }
    fn choose(&mut self, wait: &str, items: &[&str], at: usize) {
        let alone = items.iter().filter(|i| subsequence(items[at], i)).count() == 1;
        if alone && (at > 20 || self.next() % 2 == 0) {
            self.push(wait, format!("{}\r", items[at]));
        } else if at > items.len() / 2 && items.len() > 20 {
            self.push(wait, format!("{}\r", "\x1b[A".repeat(items.len() - at)));
        } else {
            self.push(wait, format!("{}\r", "\t".repeat(at + 1)));
        }
    }
    fn kind(&mut self, name: &str) {
        let at = TYPES.iter().position(|t| *t == name).unwrap_or(0);
        self.choose("? Type:", &TYPES, at);
    }
    fn float(&mut self, v: f64) -> String {
        if self.next() % 3 == 0 { format!("{v:e}") } else { format!("{v}") }
    }
    /// Sometimes, a first try that cannot be what is asked for: it is asked for again.
    fn wrong(&mut self, wait: &str, junk: &str) {
        if self.next() % 6 == 0 {
            self.line(wait, junk);
        }
    }
    fn value(&mut self, v: &MV) -> Result<(), Fail> {
        match v {
            MV::Ch(c) => {
                self.kind("Character");
                self.wrong("? Character: ", "ab");
                self.line("? Character: ", &c.to_string());
            }
            MV::Str(s) => {
                self.kind("String");
                if self.next() % 6 == 0 {
                    self.line("? Text: ", "");
                }
                self.line("? Text: ", s);
            }
            MV::Bin(b) => {
                self.kind("Binary");
                let f = self.dir.join(format!("bin{}", self.files));
                self.files += 1;
                std::fs::write(&f, b.bytes()).map_err(|e| harness_err!("{e}"))?;
                let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o644));
                let ask = "? Please enter the path";
                let dir = self.dir.display().to_string();
                self.wrong(ask, &dir);
                self.wrong(ask, &format!("{dir}/not there"));
                self.line(ask, &f.display().to_string());
            }
            MV::Bool(b) => {
                self.kind("Boolean");
                self.choose("False\n", &["False", "True"], usize::from(*b));
            }
            MV::Int(i) => {
                self.kind("Integer");
                self.wrong("? Which number: ", "12x");
                self.wrong("? Which number: ", "340282366920938463463374607431768211456");
                self.line("? Which number: ", &i.n.to_string());
            }
            MV::Polar(m, a) => {
                self.kind("Imaginary");
                self.push("? Form?", "\t\r");
                let (m, a) = (self.float(f64::from_bits(*m)), self.float(f64::from_bits(*a)));
                self.line("? Modulus: ", &m);
                self.line("? Argument: ", &a);
            }
            MV::Cart(a, b) => {
                self.kind("Imaginary");
                self.push("? Form?", "\t\t\r");
                self.line("? Real Part: ", &a.n.to_string());
                self.wrong("? Imaginary Part: ", "i");
                self.line("? Imaginary Part: ", &b.n.to_string());
            }
            MV::Ts(t) => {
                self.kind("Timestamp");
                let d = t.build().ok_or_else(|| harness_err!("timestamp"))?;
                self.yes("? Now?", false);
                if self.next() % 2 == 0 || d.nanosecond() % 1_000_000 != 0 {
                    self.yes("? Would you use the format?", true);
                    self.wrong("? %Y", "yesterday");
                    self.line("? %Y", &format!("{d:?}"));
                } else {
                    self.yes("? Would you use the format?", false);
                    if self.next() % 4 == 0 {
                        for (w, x) in [("? Year: ", "2023"), ("? Month: ", "2"), ("? Date: ", "29")] {
                            self.line(w, x);
                        }
                    }
                    for (w, x) in [("? Year: ", d.year()), ("? Month: ", d.month() as i32), ("? Date: ", d.day() as i32)] {
                        self.line(w, &x.to_string());
                    }
                    if self.next() % 4 == 0 {
                        for (w, x) in [("? Hour: ", "24"), ("? Minute: ", "0"), ("? Seconds: ", "0"), ("? Milliseconds: ", "0")] {
                            self.line(w, x);
                        }
                    }
                    for (w, x) in [("? Hour: ", d.hour()), ("? Minute: ", d.minute()), ("? Seconds: ", d.second()), ("? Milliseconds: ", d.nanosecond() / 1_000_000)] {
                        self.line(w, &x.to_string());
                    }
                }
            }
            MV::Json(j) => {
                self.kind("JSON");
                self.wrong("? JSON: ", "{\"a\"");
                let t = j.build().to_string().replace('\u{7f}', "\\u007f");
                self.line("? JSON: ", &t);
            }
            MV::Null => self.kind("Null"),
            MV::F64(b) => {
                self.kind("DoubleFloat");
                self.wrong("? Value:", "1,5");
                let t = self.float(f64::from_bits(*b));
                self.line("? Value:", &t);
            }
            MV::F32(b) => {
                self.kind("SingleFloat");
                let f = f32::from_bits(*b);
                let t = if self.next() % 3 == 0 { format!("{f:e}") } else { format!("{f}") };
                self.line("? Value:", &t);
            }
            MV::Arr(a) => {
                self.kind("Array");
                let known = a.is_empty() || self.next() % 2 == 0;
                self.yes("? Do you know how long the array is?", known);
                if known {
                    self.wrong("? How long?", "-1");
                    self.line("? How long?", &a.len().to_string());
                }
                for (i, x) in a.iter().enumerate() {
                    self.value(x)?;
                    if !known {
                        self.yes("? Is that everything?", i + 1 == a.len());
                    }
                }
            }
            MV::Map(m) => {
                self.kind("Map");
                let known = self.next() % 2 == 0;
                self.yes("? Do you know how long the store is?", known);
                // what comes later under the same key takes its place
                let twice = if self.next() % 3 == 0 { m.keys().next() } else { None };
                if known {
                    self.line("? Length: ", &(m.len() + usize::from(twice.is_some())).to_string());
                }
                if let Some(k) = twice {
                    if !known {
                        self.yes("? Is that all the keys & values?", false);
                    }
                    self.line("? Key: ", k);
                    self.value(&MV::Ch('?'))?;
                }
                for (k, x) in m {
                    if !known {
                        self.yes("? Is that all the keys & values?", false);
                    }
                    self.line("? Key: ", k);
                    self.value(x)?;
                }
                if !known {
                    self.yes("? Is that all the keys & values?", true);
                }
            }
            MV::Tz(i) => {
                self.kind("Timezone");
                let names: Vec<&str> = chrono_tz::TZ_VARIANTS.iter().map(|t| t.name()).collect();
                self.choose("? Timezone: ", &names, *i as usize % names.len());
            }
            MV::V4(o) => {
                self.kind("Ipv4Addr");
                self.wrong("? Ipv4 Address: ", "1.2.3.256");
                self.line("? Ipv4 Address: ", &std::net::Ipv4Addr::from(*o).to_string());
            }
            MV::V6(s) => {
                self.kind("Ipv6Addr");
                self.wrong("? Ipv6 Address: ", "1::2::3");
                self.line("? Ipv6 Address: ", &std::net::Ipv6Addr::from(*s).to_string());
            }
            MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => self.value(&v.expand())?,
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- one command
/// What a command has to come to.
struct Want {
    ok: bool,
    /// The daemon's contents afterwards.
    dbs: Dbs,
}
struct Run<'a> {
    place: &'a Place,
    cli: PathBuf,
    port: u16,
    n: usize,
}
impl Run<'_> {
    fn start(&mut self, args: &[&str], path: Option<&Path>) -> Result<Term, Fail> {
        self.n += 1;
        let mut a: Vec<&std::ffi::OsStr> = vec!["127.0.0.1".as_ref()];
        a.extend(args.iter().map(|x| std::ffi::OsStr::new(*x)));
        if let Some(p) = path {
            a.push(p.as_os_str());
        }
        Term::run(self.place, self.port, &a)
    }
    /// Answers the choice among existing databases.
    fn pick(&self, t: &mut Term, s: &Dbs, n: u8) -> Result<Option<String>, Stop> {
        if s.is_empty() {
            return Ok(None);
        }
        let want = s.keys().nth(n as usize % s.len()).cloned().unwrap_or_default();
        if s.len() > 1 {
            self.select(t, "? Which database?", s.len(), &want)?;
        }
        Ok(Some(want))
    }
    fn select(&self, t: &mut Term, ask: &str, n: usize, want: &str) -> Result<(), Stop> {
        let items = t.items(ask, n)?;
        let Some(i) = items.iter().position(|x| x == want) else {
            return Err(Stop::Fail(Fail::Violation(format!("{want:?} is not among the choices: {items:?}"))));
        };
        t.keys(&format!("{}\r", "\t".repeat(i + 1)))
    }
    /// Answers which database, new or existing. None: there is none to choose.
    fn target(&self, t: &mut Term, s: &Dbs, tg: &Target) -> Result<Option<String>, Stop> {
        t.expect("? New Database?")?;
        match tg {
            Target::Pick(n) => {
                t.keys("n")?;
                self.pick(t, s, *n)
            }
            Target::New(tries, last) => {
                t.keys("y")?;
                for (name, over) in tries.iter().map(|(n, o)| (n, *o)).chain([(last, true)]) {
                    t.expect("? Database Name: ")?;
                    t.keys(&format!("{name}\r"))?;
                    if name.is_empty() || name == "meta" {
                        continue;
                    }
                    if s.contains_key(name) {
                        t.expect("? This database already exists. Overwrite?")?;
                        t.keys(if over { "y" } else { "n" })?;
                        if !over {
                            continue;
                        }
                    }
                    return Ok(Some(name.clone()));
                }
                Err(Stop::Fail(harness_err!("no name is left to type")))
            }
        }
    }
    fn say(&self, t: &mut Term, sc: &Script) -> Result<(), Stop> {
        for (wait, keys) in &sc.say {
            t.expect(wait)?;
            t.keys(keys)?;
        }
        Ok(())
    }
}

const OLD_FILE: &str = "[\"something that was there before\"]\n";
fn same_json_file(p: &Path, want: &serde_json::Value) -> Result<(), String> {
    let b = std::fs::read(p).map_err(|e| format!("no exported file: {e}"))?;
    let got: serde_json::Value = serde_json::from_slice(&b).map_err(|e| format!("the exported file is not JSON: {e}"))?;
    let want: serde_json::Value = serde_json::from_str(&want.to_string()).map_err(|e| format!("rendering: {e}"))?;
    json_same(&want, &got, "export")
}

fn command(r: &mut Run, m: &Mouse, s: &Dbs, case: &mut Case) -> Result<Want, Fail> {
    let cli = r.cli.clone();
    let mut dbs = s.clone();
    let (mut ok, mut silent) = (true, false);
    let mut exported: Option<(PathBuf, Option<serde_json::Value>, u16)> = None;
    let mut shown: Option<Vec<String>> = None;
    let (t, res): (Term, Result<(), Stop>) = match m {
        Mouse::Create { db, clear } => {
            case.label("create");
            let mut t = r.start(&["create-new", "--", db], None)?;
            let res = (|| {
                if s.contains_key(db) {
                    case.label("create_existing");
                    t.expect("? A database with that name already exists. Clear that database?")?;
                    t.keys(if *clear { "y" } else { "n" })?;
                    if *clear {
                        dbs.insert(db.clone(), MStore::new());
                    }
                } else if storable(db) {
                    dbs.insert(db.clone(), MStore::new());
                } else {
                    ok = false;
                }
                Ok(())
            })();
            (t, res)
        }
        Mouse::Add { target, key, val, style, sure } => {
            case.label("add");
            let mut sc = Script { say: vec![], style, used: 0, dir: &cli, files: r.n * 100 };
            sc.line("? Key: ", key);
            sc.value(val)?;
            sc.yes("? Confirm Addition?", *sure);
            let mut t = r.start(&["add-entry"], None)?;
            let res = (|| {
                let Some(db) = r.target(&mut t, s, target)? else {
                    ok = false;
                    return Ok(());
                };
                r.say(&mut t, &sc)?;
                case.label_if(!s.contains_key(&db), "add_to_new_database");
                if *sure {
                    val.labels(case);
                    if s.contains_key(&db) || storable(&db) {
                        dbs.entry(db).or_default().insert(key.clone(), val.clone());
                    } else {
                        ok = false;
                    }
                } else {
                    case.label("cancelled");
                }
                Ok(())
            })();
            (t, res)
        }
        Mouse::Update { db, key, val, style, sure } => {
            case.label("update");
            let mut sc = Script { say: vec![], style, used: 0, dir: &cli, files: r.n * 100 };
            sc.value(val)?;
            sc.yes("? Confirm Update?", *sure);
            let mut t = r.start(&["update-entry"], None)?;
            let res = (|| {
                let Some(db) = r.pick(&mut t, s, *db)? else {
                    ok = false;
                    return Ok(());
                };
                let d = &s[&db];
                if !d.is_empty() {
                    let k = d.keys().nth(*key as usize % d.len()).cloned().unwrap_or_default();
                    r.select(&mut t, "? Select key to be updated:", d.len(), &k)?;
                    r.say(&mut t, &sc)?;
                    if *sure {
                        val.labels(case);
                        dbs.entry(db).or_default().insert(k, val.clone());
                    } else {
                        case.label("cancelled");
                    }
                }
                Ok(())
            })();
            (t, res)
        }
        Mouse::Remove { db, key, sure } => {
            case.label("remove");
            let mut t = r.start(&["remove-entry"], None)?;
            let res = (|| {
                let Some(db) = r.pick(&mut t, s, *db)? else {
                    ok = false;
                    return Ok(());
                };
                let d = &s[&db];
                if !d.is_empty() {
                    let k = d.keys().nth(*key as usize % d.len()).cloned().unwrap_or_default();
                    r.select(&mut t, "? Select key to be removed:", d.len(), &k)?;
                    t.expect("? Confirm Removal?")?;
                    t.keys(if *sure { "y" } else { "n" })?;
                    if *sure {
                        dbs.entry(db).or_default().remove(&k);
                    } else {
                        case.label("cancelled");
                    }
                }
                Ok(())
            })();
            (t, res)
        }
        Mouse::RmDb { db } => {
            case.label("remove_database");
            let mut t = r.start(&["remove-database"], None)?;
            let res = r.pick(&mut t, s, *db).map(|n| match n {
                Some(n) => {
                    dbs.remove(&n);
                }
                None => ok = false,
            });
            (t, res)
        }
        Mouse::View { db, debug } => {
            case.label("view");
            let mut t = r.start(&[if *debug { "debug-view-all" } else { "view-all" }], None)?;
            let res = r.pick(&mut t, s, *db).map(|n| match n {
                Some(n) => shown = Some(s[&n].keys().filter(|k| k.chars().all(|c| c.is_ascii_alphanumeric())).cloned().collect()),
                None => ok = false,
            });
            (t, res)
        }
        Mouse::Import { target, doc, pretty } => {
            case.label("import");
            let file = r.cli.join(format!("import{}.json", r.n));
            let text = |j: serde_json::Value| if *pretty { serde_json::to_string_pretty(&j).unwrap_or_default() } else { j.to_string() }.into_bytes();
            let bytes = match doc {
                Doc::Of(m, typed) => {
                    case.label(if *typed { "import_typed" } else { "import_plain" });
                    let st = build_store(m);
                    st.to_json(*typed).map(text).unwrap_or_else(|| b"{}".to_vec())
                }
                Doc::Any(o) => text(MJ::O(o.clone()).build()),
                Doc::Broken(b) => b.clone(),
                Doc::Missing => vec![],
            };
            case.label_if(bytes.len() > 128, "import_long");
            let want = match (doc, Store::from_json_bytes(&bytes)) {
                (Doc::Missing, _) | (_, Err(_)) => None,
                (_, Ok(st)) => {
                    let mut mm = MStore::new();
                    for (k, v) in st.iter() {
                        mm.insert(k.clone(), model_of(v).map_err(|e| harness_err!("{e}"))?);
                    }
                    Some(mm)
                }
            };
            if !matches!(doc, Doc::Missing) {
                std::fs::write(&file, &bytes).map_err(|e| harness_err!("{e}"))?;
                let _ = std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o644));
            }
            let mut t = r.start(&["import-from-json"], Some(&file))?;
            let res = match want {
                None => {
                    case.label("import_unusable");
                    ok = false;
                    Ok(())
                }
                Some(w) => r.target(&mut t, s, target).map(|db| match db {
                    Some(db) if storable(&db) => {
                        case.label_if(s.get(&db).is_some_and(|d| !d.is_empty()), "import_over_contents");
                        dbs.insert(db, w);
                    }
                    _ => ok = false,
                }),
            };
            (t, res)
        }
        Mouse::Export { db, typed, to } => {
            let nowhere = &(*to == 1);
            case.label(if *typed { "export_typed" } else { "export_plain" });
            let file = if *nowhere { r.cli.join("no such folder").join("x.json") } else { r.cli.join(format!("export{}.json", r.n)) };
            let args: &[&str] = if *typed { &["export-to-json", "--add-souris-types"] } else { &["export-to-json"] };
            if *to > 1 {
                case.label("export_over_file");
                std::fs::write(&file, OLD_FILE.repeat(usize::from(*to))).map_err(|e| harness_err!("{e}"))?;
                let _ = std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o666));
            }
            let mut t = r.start(args, Some(&file))?;
            let res = r.pick(&mut t, s, *db).map(|n| match n {
                Some(n) => {
                    let j = build_store(&s[&n]).to_json(*typed);
                    if j.is_none() {
                        silent = true;
                        case.label("export_impossible");
                    } else if *nowhere {
                        ok = false;
                    }
                    exported = Some((file, if *nowhere { None } else { j }, *to));
                }
                None => ok = false,
            });
            (t, res)
        }
        Mouse::Other(_) => return Err(harness_err!("not a command")),
        Mouse::Alone(n) => {
            case.label("no_daemon");
            let port = r.port;
            // a port nobody listens on
            let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| harness_err!("{e}"))?;
            r.port = l.local_addr().map_err(|e| harness_err!("{e}"))?.port();
            drop(l);
            let c = [&["create-new", "a"][..], &["add-entry"], &["view-all"], &["remove-entry"], &["update-entry"], &["remove-database"], &["export-to-json", "x.json"], &["import-from-json", "x.json"]];
            let t = r.start(c[*n as usize % c.len()], None);
            r.port = port;
            ok = false;
            (t?, Ok(()))
        }
    };
    let early = match res {
        Ok(()) => None,
        Err(Stop::Ended) => Some("it ended instead of asking on"),
        Err(Stop::Fail(f)) => return Err(f),
    };
    let (code, out, err) = t.end()?;
    let said = || truncate(&format!("{}|{}", out.trim(), err.trim()), 400);
    if let Some(e) = early {
        return violation(format!("{e}: exit status {code:?}, said {}", said()));
    }
    if ok {
        ensure!(code == Some(0), "exit status {code:?}, said {}", said());
    } else {
        ensure!(code.is_some_and(|c| c != 0 && c != 101), "a failing command ends with {code:?}, said {}", said());
        ensure!(err.to_lowercase().contains("error"), "a failing command reports no error, but {}", said());
        case.label("fails");
    }
    if silent {
        ensure!(!err.trim().is_empty(), "a database that has no JSON rendering is exported without a word");
    }
    if let Some((file, want, over)) = exported {
        match want {
            Some(w) => same_json_file(&file, &w).or_else(violation)?,
            None if over > 1 => ensure!(std::fs::read(&file).is_ok_and(|b| b == OLD_FILE.repeat(over.into()).into_bytes()), "an export that fails changes the file that was there"),
            None => ensure!(!file.exists(), "an export that fails leaves a file: {:?}", std::fs::read(&file).map(|b| truncate(&String::from_utf8_lossy(&b), 100))),
        }
    }
    if let Some(keys) = shown {
        for k in keys {
            ensure!(out.contains(&k), "the view shows no key {k:?}: {}", said());
        }
    }
    Ok(Want { ok, dbs })
}

fn c25_once(steps: &[Mouse], case: &mut Case) -> TestResult {
    let place = Place::new()?;
    let cli = place.dir.join("cli");
    std::fs::create_dir(&cli).map_err(|e| harness_err!("{e}"))?;
    give(&cli);
    let mut d = Daemon::start(&place).map_err(StartError::fail)?;
    let mut raw = Client::new(&d);
    let mut s = Dbs::new();
    let mut run = Run { place: &place, cli, port: d.port, n: 0 };
    let mut commands = 0;
    for (i, m) in steps.iter().enumerate() {
        if let Mouse::Other(op) = m {
            step(&mut raw, &mut s, i, op)?;
            continue;
        }
        let w = command(&mut run, m, &s, case).map_err(|f| at(f, &format!("step {i} {}", short(m))))?;
        commands += 1;
        case.label_if(s.len() > 1, "several_databases");
        if w.ok && w.dbs != s {
            case.nontrivial();
        }
        s = w.dbs;
        audit(&mut raw, &s, &format!("after step {i} {}", short(m)))?;
    }
    case.label_if(commands > 1, "several_commands");
    ensure!(d.alive(), "the daemon ended");
    Ok(())
}
fn c25(steps: &Vec<Mouse>, case: &mut Case) -> TestResult {
    match c25_once(steps, case) {
        // a terminal is not a quiet place: only what happens every time counts
        Err(Fail::Violation(_)) => c25_once(steps, case),
        r => r,
    }
}

// ---------------------------------------------------------------- generators
/// What can be typed on one line.
fn typeable(s: &str) -> String {
    let t: String = s.chars().map(|c| if c.is_control() { '·' } else { c }).collect();
    if t.is_empty() { "x".into() } else { t }
}
fn tame_float(b: u64) -> u64 {
    ((b as i16 as f64) / 8.0).to_bits()
}
fn tame_json(j: &MJ) -> MJ {
    match j {
        MJ::F(b) => MJ::F(tame_float(*b)),
        MJ::A(a) => MJ::A(a.iter().map(tame_json).collect()),
        MJ::O(o) => MJ::O(o.iter().map(|(k, v)| (k.clone(), tame_json(v))).collect()),
        o => o.clone(),
    }
}
/// Drawing the table of a long text takes the tool a time quadratic in its length.
fn bounded(b: &MBin) -> MBin {
    let mut v = b.bytes();
    if v.len() <= 900 {
        return b.clone();
    }
    v.truncate(900);
    MBin::Bytes(v)
}
/// The value as it can be entered.
fn enterable(v: &MV) -> MV {
    match v {
        MV::Ch(c) if c.is_control() => MV::Ch('é'),
        MV::Str(s) => MV::Str(typeable(s)),
        MV::Bin(b) => MV::Bin(bounded(b)),
        MV::Json(j) => MV::Json(tame_json(j)),
        MV::F64(b) if f64::from_bits(*b).is_nan() => MV::F64(f64::NAN.to_bits()),
        MV::F32(b) if f32::from_bits(*b).is_nan() => MV::F32(f32::NAN.to_bits()),
        MV::Polar(a, b) => {
            let f = |x: u64| if f64::from_bits(x).is_nan() { f64::NAN.to_bits() } else { x };
            MV::Polar(f(*a), f(*b))
        }
        MV::Int(i) => MV::Int(MInt { w: 12, n: i.n }),
        MV::Cart(a, b) => MV::Cart(MInt { w: 12, n: a.n }, MInt { w: 12, n: b.n }),
        MV::Ts(t) => {
            let mut t = t.clone();
            t.y = t.y.rem_euclid(10_000);
            t.ord = t.ord.clamp(1, 365);
            if t.ns % 2 == 0 {
                t.ns = t.ns / 1_000_000 * 1_000_000;
            }
            if t.ns >= 1_000_000_000 {
                t.secs = t.secs / 60 * 60 + 59;
            }
            MV::Ts(t)
        }
        MV::Arr(a) => MV::Arr(a.iter().map(enterable).collect()),
        MV::Map(m) => MV::Map(m.iter().map(|(k, v)| (typeable(k), enterable(v))).collect()),
        o => o.clone(),
    }
}
/// Keys and values that survive a trip through JSON text, and can be seen on a terminal.
fn tame(v: &MV) -> MV {
    match v {
        MV::Bin(b) => MV::Bin(bounded(b)),
        MV::Str(s) if s.len() > 2000 => MV::Str(s.chars().take(500).collect()),
        MV::Json(j) => MV::Json(tame_json(j)),
        MV::F64(b) => MV::F64(tame_float(*b)),
        MV::F32(b) => MV::F32(((*b as i16 as f32) / 8.0).to_bits()),
        MV::Polar(a, b) => MV::Polar(tame_float(*a), tame_float(*b)),
        MV::Arr(a) => MV::Arr(a.iter().map(tame).collect()),
        MV::Map(m) => MV::Map(m.iter().map(|(k, v)| (k.clone(), tame(v))).collect()),
        o => o.clone(),
    }
}
fn tame_store(m: MStore) -> MStore {
    m.into_iter().map(|(k, v)| (typeable(&k), tame(&v.expand()))).collect()
}
fn entry(t: Tier) -> BoxedStrategy<MV> {
    let l = || leaf(t).prop_filter_map("long", |v| match &v {
        MV::Str(s) if s.chars().count() > 300 => None,
        MV::Json(j) if j.size() > 20 || j.build().to_string().len() > 400 => None,
        _ => Some(v),
    });
    let tree = l().prop_recursive(2, 8, 3, |inner| {
        prop_oneof![
            2 => vec(inner.clone(), 0..4).prop_map(MV::Arr),
            2 => btree_map(key(), inner, 0..4).prop_map(MV::Map),
        ]
    });
    // files of many readings
    let long = prop_oneof![2 => (any::<u64>(), 1_000..10_000_u32).prop_map(|(s, n)| MBin::Noise(s, n)), 1 => (any::<u8>(), 1_000..12_000_u32).prop_map(|(b, n)| MBin::Runs(vec![(b, n)]))];
    let tiny = || prop_oneof![Just(MV::Null), any::<bool>().prop_map(MV::Bool)];
    let many = prop_oneof![2 => vec(tiny(), 8..18).prop_map(MV::Arr), 1 => btree_map("[a-z]{1,2}", tiny(), 8..14).prop_map(MV::Map)];
    let padded = "[ ]{0,2}[a-z]{0,3}[ ]{1,2}[a-z.]{0,1}".prop_map(MV::Str);
    prop_oneof![
        60 => prop_oneof![2 => l().boxed(), 1 => tree.boxed()].prop_map(|v| enterable(&v)),
        2 => long.prop_map(MV::Bin),
        1 => many,
        2 => padded,
        6 => any::<u16>().prop_map(MV::Tz),
    ]
    .boxed()
}
/// Keys, some with space around them.
fn tkey() -> BoxedStrategy<String> {
    prop_oneof![8 => dkey(), 1 => "[ ]{0,2}[a-c][ ]{0,2}".prop_map(String::from)].boxed()
}
fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "c"]).prop_map(String::from),
        1 => prop::sample::select(vec!["a b", "-a", "a&b=c", "Meta", "..", "a/b", "é", "%41", "a+b", "--", "meta"]).prop_map(String::from),
    ]
    .boxed()
}
fn target() -> BoxedStrategy<Target> {
    let last = prop_oneof![6 => name().prop_map(|n| if n == "meta" { "meta2".into() } else { n }), 1 => Just("n0".to_string())];
    prop_oneof![
        1 => any::<u8>().prop_map(Target::Pick),
        1 => (vec((prop_oneof![3 => name(), 1 => Just("meta".to_string()), 1 => Just(String::new())], any::<bool>()), 0..3), last).prop_map(|(t, l)| Target::New(t, l)),
    ]
    .boxed()
}
fn other(t: Tier) -> BoxedStrategy<Op> {
    let v = || prop_oneof![15 => dval(t).prop_map(|v| tame(&v.expand())), 1 => "[\\x00-\\x1f\\x7f-\\x9f\u{2028}\u{feff}a]{1,6}".prop_map(MV::Str)];
    prop_oneof![
        3 => (name(), any::<bool>(), btree_map(dkey(), v(), 0..5)).prop_map(|(db, over, with)| Op::Fill { db, over, with: tame_store(with) }),
        2 => (name(), dkey(), v()).prop_map(|(db, k, val)| Op::AddKv { db, key: typeable(&k), create: true, over: true, val }),
        1 => name().prop_map(|db| Op::RmDb { db }),
        // not representable in JSON
        1 => (name(), prop::sample::select(vec![MV::F64(f64::NAN.to_bits()), MV::F64(f64::INFINITY.to_bits()), MV::Int(MInt { w: 12, n: Num::u(u128::MAX) })])).prop_map(|(db, val)| Op::AddKv { db, key: "odd".into(), create: true, over: true, val }),
    ]
    .prop_filter("no database name", |o| o.db().is_some_and(|d| !d.is_empty()))
    .boxed()
}
fn steps(t: Tier) -> BoxedStrategy<Vec<Mouse>> {
    let style = || vec(any::<u8>(), 1..12);
    let doc = prop_oneof![
        4 => (mstore_from(mv_from(leaf(t))), any::<bool>()).prop_map(|(m, ty)| Doc::Of(tame_store(m), ty)),
        2 => btree_map(key(), mj(t).prop_map(|j| tame_json(&j)), 0..6).prop_map(|o| Doc::Any(o.into_iter().map(|(k, v)| (typeable(&k), v)).collect())),
        1 => prop::sample::select(vec!["", "[]", "{", "{\"a\":1", "{\"a\":1}x", "null", "5", "{a:1}", "{\"a\":NaN}", "\u{feff}{}"]).prop_map(|s| Doc::Broken(s.as_bytes().to_vec())),
        1 => Just(Doc::Missing),
    ];
    let m = prop_oneof![
        4 => (name(), any::<bool>()).prop_map(|(db, clear)| Mouse::Create { db, clear }),
        12 => (target(), tkey(), entry(t), style(), prop::bool::weighted(0.9)).prop_map(|(target, k, val, style, sure)| Mouse::Add { target, key: typeable(&k), val, style, sure }),
        4 => (any::<u8>(), any::<u8>(), entry(t), style(), prop::bool::weighted(0.8)).prop_map(|(db, key, val, style, sure)| Mouse::Update { db, key, val, style, sure }),
        4 => (any::<u8>(), any::<u8>(), prop::bool::weighted(0.8)).prop_map(|(db, key, sure)| Mouse::Remove { db, key, sure }),
        2 => any::<u8>().prop_map(|db| Mouse::RmDb { db }),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(db, debug)| Mouse::View { db, debug }),
        8 => (target(), doc, any::<bool>()).prop_map(|(target, doc, pretty)| Mouse::Import { target, doc, pretty }),
        8 => (any::<u8>(), any::<bool>(), prop_oneof![5 => Just(0_u16), 1 => Just(1_u16), 4 => 2_u16..200]).prop_map(|(db, typed, to)| Mouse::Export { db, typed, to }),
        8 => other(t).prop_map(Mouse::Other),
        1 => any::<u8>().prop_map(Mouse::Alone),
    ];
    vec(m, 1..9).boxed()
}

pub fn c25p() -> Property {
    Property {
        id: "C25",
        rule: "histories of up to eight commands of the command line tool run through a terminal (every command, values of every type entered by hand, JSON files in and out, mistyped answers, cancelled and failing commands) mixed with changes made by others; after each command the daemon's contents, the exported file and the way the tool ends are compared with a map of maps; non-trivial: a command that changes something",
        level: "exploration",
        assumptions: &["what is typed holds no control characters, and a line is not empty", "a preloaded shim connects the tool to the daemon's port", "a violation counts when it happens twice in a row"],
        checks: vec![Pbt::boxed_shards("history", 1_400, 12_000, 16, 150, steps, c25)],
    }
}
