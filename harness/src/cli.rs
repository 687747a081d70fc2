//! Running the real binary in scratch directories, under a supervisor process that owns every
//! process of the case (a child subreaper), so that what outlives a run is seen and removed.
use crate::engine::HARNESS;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

pub struct Scratch {
    pub path: PathBuf,
}

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new(tag: &str) -> Result<Scratch, String> {
        MADE.store(true, Ordering::SeqCst);
        let path = base().dir.join(format!("{}-{}", tag, NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&path).map_err(|e| format!("{}scratch dir: {}", HARNESS, e))?;
        Ok(Scratch { path })
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.path).ok();
    }
}

pub fn now_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

/// Bytes as a string of chars below 256, and back.
pub fn latin1(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
pub fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// Objective values that are a pure function of the arguments; None is a rejection.
pub fn obj_value(kind: &str, arg: &str, seed: &str) -> Option<f64> {
    let h = crate::tape::hash_str(arg);
    let of_seed = crate::tape::hash_str(seed);
    match kind {
        "hash" => Some((h % 4096) as f64 / 16.0 - 128.0),
        "fine" => Some((h >> 11) as f64),
        "coarse" => Some((h % 5) as f64),
        "rejecting" => (h % 3 != 0).then(|| (h % 64) as f64 / 4.0),
        "byseed" => (of_seed % 4 != 0).then(|| (of_seed % 64) as f64 / 4.0),
        "never" => None,
        "large" => Some(((h % 2001) as f64 - 1000.0) * 1e297),
        "sphere" => {
            let mut sum = 0.0;
            let j: J = serde_json::from_str(arg).unwrap_or(J::Null);
            fn go(j: &J, s: &mut f64) {
                match j {
                    J::Number(n) => *s += n.as_f64().unwrap_or(0.0).clamp(-1e100, 1e100).powi(2),
                    J::Array(a) => a.iter().for_each(|e| go(e, s)),
                    J::Object(m) => m.values().for_each(|e| go(e, s)),
                    J::Bool(true) => *s += 1.0,
                    _ => {}
                }
            }
            go(&j, &mut sum);
            Some(sum)
        }
        k => k.parse().ok(),
    }
}

pub const KINDS: &[&str] = &["hash", "coarse", "rejecting", "byseed", "large", "sphere"];

fn beside(name: &str) -> PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().map(|p| p.join(name)).unwrap_or_default()
}

/// Copies of the binaries that any user can run, and the scratch directories of all cases.
struct Base {
    dir: PathBuf,
}

fn base() -> &'static Base {
    static BASE: std::sync::OnceLock<Base> = std::sync::OnceLock::new();
    BASE.get_or_init(|| {
        let root = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let dir = root.join(format!("vh-{}", std::process::id()));
        let under_test = std::env::var("VH_BIN").map(PathBuf::from).unwrap_or_else(|_| {
            let exe = std::env::current_exe().unwrap_or_default();
            exe.parent().and_then(|p| p.parent()).map(|p| p.join("cli/debug/cambrian")).unwrap_or_default()
        });
        let make = || -> std::io::Result<()> {
            std::fs::remove_dir_all(&dir).ok();
            std::fs::create_dir_all(dir.join("bin"))?;
            std::fs::copy(under_test, dir.join("bin/cambrian"))?;
            std::fs::copy(beside("objfn"), dir.join("bin/objfn"))?;
            Ok(())
        };
        if let Err(e) = make() {
            panic!("scratch directory {}: {}", dir.display(), e);
        }
        Base { dir }
    })
}

static MADE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Removes what this process left in the scratch directory.
pub fn cleanup() {
    if MADE.load(Ordering::SeqCst) {
        std::fs::remove_dir_all(&base().dir).ok();
    }
}

pub fn objfn() -> PathBuf {
    base().dir.join("bin/objfn")
}

/// The binary under test.
pub fn binary() -> PathBuf {
    base().dir.join("bin/cambrian")
}

/// Cases run as users that own nothing but their scratch directory: the code under test deletes
/// directories and kills process groups.
fn next_uid() -> Option<u32> {
    (unsafe { libc::getuid() } == 0).then(|| 200_000 + (std::process::id() % 10_000) * 100_000 + (NEXT.load(Ordering::SeqCst) % 100_000) as u32)
}

#[derive(Clone, Debug)]
pub struct Send {
    /// Sent when so many evaluations have started...
    pub starts: usize,
    /// ...and so many milliseconds have passed since.
    pub after_ms: u64,
    pub sig: i32,
}

pub struct Job {
    pub dir: Scratch,
    uid: Option<u32>,
    pub args: Vec<OsString>,
    pub scen: J,
    pub sends: Vec<Send>,
    pub deadline_ms: u64,
    pub keep_log: bool,
    /// See `surroundings`.
    pub around: J,
}

#[derive(Clone, Debug)]
pub struct Start {
    /// Position in the order of starts.
    pub index: usize,
    pub seed: String,
    pub pid: i32,
    pub t: u64,
    pub argv: Vec<Vec<u8>>,
    pub end: Option<u64>,
}

impl Start {
    /// The JSON argument's text.
    pub fn arg(&self) -> String {
        self.argv.len().checked_sub(2).map_or(String::new(), |i| String::from_utf8_lossy(&self.argv[i]).into_owned())
    }
}

#[derive(Clone, Debug)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub timed_out: bool,
    pub survivors: Vec<String>,
    pub starts: Vec<Start>,
    pub t0: u64,
    pub t_exit: u64,
    pub sent: Vec<u64>,
    pub cmdline: String,
    pub scen: J,
}

impl Ran {
    pub fn fail<T>(&self, m: impl AsRef<str>) -> Result<T, String> {
        let mut log = String::new();
        for s in self.starts.iter().take(40) {
            log.push_str(&format!("  seed {} at {} ms{}: {}\n", s.seed, (s.t.saturating_sub(self.t0)) / 1_000_000,
                s.end.map_or(String::new(), |e| format!(" (ended at {} ms)", e.saturating_sub(self.t0) / 1_000_000)), cut(&s.arg(), 200)));
        }
        let sent: Vec<u64> = self.sent.iter().map(|t| t.saturating_sub(self.t0) / 1_000_000).collect();
        Err(format!(
            "{}\ncommand: {}\nobjective: {}\nexit code {:?}, signal {:?} after {} ms; signals sent at {:?} ms\nstdout: {}\nstderr: {}\n{} evaluations started:\n{}",
            m.as_ref(),
            self.cmdline,
            cut(&self.scen.to_string(), 1500),
            self.code,
            self.signal,
            self.t_exit.saturating_sub(self.t0) / 1_000_000,
            sent,
            cut(&String::from_utf8_lossy(&self.stdout), 600),
            cut(&String::from_utf8_lossy(&self.stderr), 1200),
            self.starts.len(),
            log
        ))
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || String::from_utf8_lossy(&self.stderr).contains("panicked at")
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        let mut c: String = s.chars().take(n).collect();
        c.push_str("...");
        c
    } else {
        s.to_string()
    }
}

impl Job {
    pub fn new(tag: &str) -> Result<Job, String> {
        let dir = Scratch::new(tag)?;
        let uid = next_uid();
        if uid.is_some() {
            std::os::unix::fs::chown(&dir.path, uid, uid).map_err(|e| format!("{}chown: {}", HARNESS, e))?;
        }
        Ok(Job { dir, uid, args: Vec::new(), scen: json!({"default": [["value", "hash"]]}), sends: Vec::new(), deadline_ms: 60_000, keep_log: false, around: J::Null })
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.dir.path.join(name)
    }
    pub fn arg(&mut self, s: impl Into<OsString>) -> &mut Self {
        self.args.push(s.into());
        self
    }
    /// Hands a file or directory to the user the case runs as.
    pub fn own(&self, p: &Path) -> Result<(), String> {
        match self.uid {
            Some(_) => std::os::unix::fs::lchown(p, self.uid, self.uid).map_err(|e| format!("{}chown: {}", HARNESS, e)),
            None => Ok(()),
        }
    }
    pub fn put(&self, name: &str, content: &[u8]) -> Result<PathBuf, String> {
        let p = self.file(name);
        std::fs::write(&p, content).map_err(|e| format!("{}{}", HARNESS, e))?;
        self.own(&p)?;
        Ok(p)
    }

    pub fn run(&self) -> Result<Ran, String> {
        let h = |e: std::io::Error| format!("{}{}", HARNESS, e);
        let d = &self.dir.path;
        if !self.keep_log {
            std::fs::remove_file(d.join("log")).ok();
        }
        std::fs::write(d.join("scen.json"), self.scen.to_string()).map_err(h)?;
        let job = json!({
            "argv": std::iter::once(binary().into_os_string()).chain(self.args.iter().cloned()).map(|a| latin1(a.as_bytes())).collect::<Vec<_>>(),
            "dir": d.to_string_lossy(),
            "uid": self.uid,
            "around": self.around,
            "deadline_ms": self.deadline_ms,
            "sends": self.sends.iter().map(|s| json!({"starts": s.starts, "after_ms": s.after_ms, "sig": s.sig})).collect::<Vec<_>>(),
        });
        let jf = d.join("job.json");
        std::fs::write(&jf, job.to_string()).map_err(h)?;
        let mut c = Command::new(beside("vh"));
        c.arg("sup").arg(&jf).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        let out = c.output().map_err(h)?;
        if !out.status.success() {
            return Err(format!("{}supervisor: {} {}", HARNESS, out.status, String::from_utf8_lossy(&out.stderr)));
        }
        let res: J = serde_json::from_slice(&std::fs::read(d.join("result.json")).map_err(h)?).map_err(|e| format!("{}{}", HARNESS, e))?;
        let mut starts: Vec<Start> = Vec::new();
        let mut by_pid: BTreeMap<i32, usize> = BTreeMap::new();
        let log = std::fs::read(d.join("log")).unwrap_or_default();
        for line in String::from_utf8_lossy(&log).lines() {
            let f: Vec<&str> = line.splitn(5, ' ').collect();
            match f[0] {
                "S" if f.len() == 5 => {
                    let argv: Vec<String> = serde_json::from_str(f[4]).map_err(|e| format!("{}log: {}", HARNESS, e))?;
                    by_pid.insert(f[2].parse().unwrap_or(0), starts.len());
                    starts.push(Start { index: starts.len(), seed: f[1].into(), pid: f[2].parse().unwrap_or(0), t: f[3].parse().unwrap_or(0), argv: argv.iter().map(|a| bytes(a)).collect(), end: None });
                }
                "E" if f.len() == 4 => {
                    if let Some(i) = by_pid.get(&f[2].parse().unwrap_or(0)) {
                        starts[*i].end = f[3].parse().ok();
                    }
                }
                "P" => return Err(format!("{}objfn: {}", HARNESS, line)),
                _ => {}
            }
        }
        let text = |k: &str| std::fs::read(d.join(k)).unwrap_or_default();
        Ok(Ran {
            code: res["code"].as_i64().map(|c| c as i32),
            signal: res["signal"].as_i64().map(|c| c as i32),
            stdout: text("stdout"),
            stderr: text("stderr"),
            timed_out: res["timed_out"] == J::Bool(true),
            survivors: res["survivors"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
            starts,
            t0: res["t0"].as_u64().unwrap_or(0),
            t_exit: res["t_exit"].as_u64().unwrap_or(0),
            sent: res["sent"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
            cmdline: self.args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" "),
            scen: self.scen.clone(),
        })
    }
}

/// Another environment for a program: variables, program name, number of processors.
pub fn surroundings(t: &mut crate::tape::Tape) -> J {
    let mut env = Vec::new();
    for name in ["VH_PADDING", "TZ", "LC_ALL", "LANG", "HOME", "USER", "LOGNAME", "HOSTNAME", "SHELL", "TERM", "PWD", "TMPDIR", "PATH", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "SOURCE_DATE_EPOCH", "NO_COLOR", "RAYON_NUM_THREADS", "TOKIO_WORKER_THREADS", "SEED", "RUST_SEED", "CAMBRIAN_SEED"] {
        match t.below(3) {
            0 => env.push(json!([name, null])),
            1 => {
                let v = match name {
                    "VH_PADDING" => "x".repeat(t.usize(0, 3000)),
                    "RUST_MIN_STACK" => "20000000".to_string(),
                    "RUST_LOG" => t.pick(&["trace", "error"]).to_string(),
                    "TZ" => t.pick(&["Asia/Kathmandu", "UTC"]).to_string(),
                    "LC_ALL" | "LANG" => t.pick(&["C", "de_DE.UTF-8", "tr_TR"]).to_string(),
                    "HOME" | "PWD" | "TMPDIR" => t.pick(&["/", "/nowhere", "/tmp"]).to_string(),
                    _ => t.usize(1, 1000).to_string(),
                };
                env.push(json!([name, v]));
            }
            _ => {}
        }
    }
    let day = 86_400i64;
    let shift = *t.pick(&[0, 3600, -7200, day, -3 * day, 40 * day, -200 * day, 400 * day, -20_000 * day, 4_000_000_000]);
    let host = *t.pick(&["", "", "another-host", "h"]);
    json!({"shift": shift, "host": host, "clear": t.chance(1, 3), "env": env, "cpus": t.usize(0, 4), "name": if t.chance(1, 2) { Some(*t.pick(&["x", "/usr/bin/another-name", ""])) } else { None }})
}

/// The library that shifts what a process sees of the world.
pub fn preload(c: &mut Command) -> &mut Command {
    c.env("LD_PRELOAD", crate::engine::verif_dir().join("target/elsewhere.so"))
}

/// Applies what `surroundings` made.
pub fn surround(c: &mut Command, s: &J) {
    if s["clear"] == json!(true) {
        c.env_clear();
    }
    for e in s["env"].as_array().into_iter().flatten() {
        match (e[0].as_str(), e[1].as_str()) {
            (Some(k), Some(v)) => c.env(k, v),
            (Some(k), None) => c.env_remove(k),
            _ => c,
        };
    }
    let (shift, host) = (s["shift"].as_i64().unwrap_or(0), s["host"].as_str().unwrap_or(""));
    if shift != 0 || !host.is_empty() {
        preload(c).env("VH_CLOCK", shift.to_string());
        if !host.is_empty() {
            c.env("VH_HOST", host);
        }
    }
    if let Some(n) = s["name"].as_str() {
        c.arg0(n);
    }
    let cpus = s["cpus"].as_u64().unwrap_or(0);
    unsafe {
        c.pre_exec(move || {
            let size = std::mem::size_of::<libc::cpu_set_t>();
            let mut have: libc::cpu_set_t = std::mem::zeroed();
            if cpus > 0 && libc::sched_getaffinity(0, size, &mut have) == 0 {
                let mut want: libc::cpu_set_t = std::mem::zeroed();
                let mut left = cpus;
                for i in 0..libc::CPU_SETSIZE as usize {
                    if left > 0 && libc::CPU_ISSET(i, &have) {
                        libc::CPU_SET(i, &mut want);
                        left -= 1;
                    }
                }
                libc::sched_setaffinity(0, size, &want);
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------ the supervisor

/// Children of this process: pid, process group, state, name.
fn children() -> Vec<(i32, i32, char, String)> {
    let me = std::process::id() as i32;
    let mut out = Vec::new();
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let pid: i32 = match e.file_name().to_string_lossy().parse() {
            Ok(p) => p,
            Err(_) => continue,
        };
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
        let (Some(a), Some(b)) = (stat.find('('), stat.rfind(')')) else { continue };
        let rest: Vec<&str> = stat[b + 1..].split_whitespace().collect();
        if rest.len() > 2 && rest[1].parse() == Ok(me) {
            out.push((pid, rest[2].parse().unwrap_or(0), rest[0].chars().next().unwrap_or('?'), stat[a + 1..b].to_string()));
        }
    }
    out
}

fn reap() {
    unsafe { while libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) > 0 {} }
}

fn escaped(dir: &Path) -> Vec<i32> {
    let log = std::fs::read(dir.join("log")).unwrap_or_default();
    String::from_utf8_lossy(&log).lines().filter_map(|l| l.strip_prefix("X ")?.parse().ok()).collect()
}

/// How long a killed process may take to disappear.
const GRACE_MS: u64 = 5000;

pub fn supervise(file: &str) -> i32 {
    let job: J = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(j) => j,
        None => return 3,
    };
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1);
    }
    let dir = PathBuf::from(job["dir"].as_str().unwrap_or("/nonexistent"));
    let argv: Vec<OsString> = job["argv"].as_array().into_iter().flatten().map(|a| OsString::from_vec(bytes(a.as_str().unwrap_or("")))).collect();
    let create = |n: &str| std::fs::File::create(dir.join(n));
    let (Ok(so), Ok(se)) = (create("stdout"), create("stderr")) else { return 3 };
    let mut c = Command::new(&argv[0]);
    c.args(&argv[1..]).current_dir(&dir).stdin(Stdio::null()).stdout(so).stderr(se);
    if let Some(uid) = job["uid"].as_u64() {
        c.uid(uid as u32).gid(uid as u32);
    }
    c.env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE").env_remove("RUST_LOG");
    surround(&mut c, &job["around"]);
    c.env("VH_DIR", &dir);
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let t0 = now_ns();
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 3;
        }
    };
    let deadline = t0 + job["deadline_ms"].as_u64().unwrap_or(60_000) * 1_000_000;
    let mut sends: Vec<(u64, u64, i32)> = job["sends"].as_array().into_iter().flatten()
        .map(|s| (s["starts"].as_u64().unwrap_or(0), s["after_ms"].as_u64().unwrap_or(0) * 1_000_000, s["sig"].as_i64().unwrap_or(2) as i32)).collect();
    let mut reached: BTreeMap<u64, u64> = BTreeMap::new();
    let mut sent = Vec::new();
    let mut timed_out = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(e) => {
                eprintln!("{}", e);
                return 3;
            }
        }
        let now = now_ns();
        if now > deadline {
            timed_out = true;
            child.kill().ok();
            child.wait().ok();
            break None;
        }
        if !sends.is_empty() {
            let log = std::fs::read(dir.join("log")).unwrap_or_default();
            let n = log.split(|b| *b == b'\n').filter(|l| l.starts_with(b"S ")).count() as u64;
            sends.retain(|(at, after, sig)| {
                if n >= *at {
                    let since = *reached.entry(*at).or_insert(now);
                    if now >= since + *after {
                        unsafe { libc::kill(child.id() as i32, *sig) };
                        sent.push(now_ns());
                        return false;
                    }
                }
                true
            });
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let t_exit = now_ns();
    let mut survivors: Vec<String> = Vec::new();
    loop {
        reap();
        let free = escaped(&dir);
        let alive: Vec<_> = children().into_iter().filter(|c| c.2 != 'Z' && !free.contains(&c.0)).collect();
        if alive.is_empty() || timed_out {
            break;
        }
        if now_ns() > t_exit + GRACE_MS * 1_000_000 {
            survivors = alive.iter().map(|c| format!("pid {} in process group {} ({}, state {})", c.0, c.1, c.3, c.2)).collect();
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    // everything of this case goes
    for _ in 0..2000 {
        reap();
        let left = children();
        if left.is_empty() {
            break;
        }
        for c in left {
            unsafe { libc::kill(c.0, libc::SIGKILL) };
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let res = json!({
        "code": status.and_then(|s| s.code()), "signal": status.and_then(|s| s.signal()), "timed_out": timed_out,
        "survivors": survivors, "t0": t0, "t_exit": t_exit, "sent": sent,
    });
    match std::fs::write(dir.join("result.json"), res.to_string()) {
        Ok(()) => 0,
        Err(_) => 3,
    }
}
