//! Runs families of generated cases on a fixed amount of work, shrinks the first failure, writes
//! replay files and evidence.

use crate::tape::{hash_str, mix, Tape};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one case reports about itself.
#[derive(Default, Clone)]
pub struct Ctx {
    pub labels: BTreeSet<String>,
    /// Fingerprint of a case that is non-trivial by the family's rule.
    pub nontrivial: Option<u64>,
    pub sample: Option<J>,
    /// Numeric measurements; max and sum are aggregated.
    pub nums: BTreeMap<String, u64>,
    pub findings: Vec<String>,
    pub thorough: bool,
    /// Replays and shrinks ask for a full description.
    pub verbose: bool,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.insert(s.into());
    }
    pub fn num(&mut self, k: &str, v: u64) {
        *self.nums.entry(k.to_string()).or_default() += v;
    }
    pub fn nontrivial(&mut self, desc: &str) {
        self.nontrivial = Some(hash_str(desc));
    }
    /// A genuine defect: reported as a known finding if KNOWN_FINDINGS.txt lists it under `id`,
    /// as a violation otherwise.
    pub fn known(&mut self, property: &str, id: &str, msg: impl FnOnce() -> String) -> Result<(), String> {
        match known_finding(property, id) {
            Some(text) => {
                self.findings.push(text);
                Ok(())
            }
            None => Err(msg()),
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Tape, &mut Ctx) -> Result<(), String>;

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// CPU seconds after which a case counts as hung (0 = not watched).
    pub cpu_limit: u64,
    /// Seconds of real time a case may take (0: any).
    pub wall_limit: u64,
    /// Re-executions allowed while shrinking.
    pub shrink: usize,
    pub case: CaseFn,
    /// What a case is and what makes it non-trivial.
    pub rule: &'static str,
}

impl Family {
    pub fn new(name: &'static str, quick: u64, thorough: u64, case: CaseFn, rule: &'static str) -> Self {
        Family { name, quick, thorough, threads: 8, cpu_limit: 60, wall_limit: 0, shrink: 4000, case, rule }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn shrink(mut self, n: usize) -> Self {
        self.shrink = n;
        self
    }
    pub fn cpu(mut self, n: u64) -> Self {
        self.cpu_limit = n;
        self
    }
    pub fn wall(mut self, n: u64) -> Family {
        self.wall_limit = n;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub families: Vec<Family>,
    pub assumptions: Vec<&'static str>,
}

// ------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// Panics raised on threads the code under test started itself.
static FOREIGN_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        *FOREIGN_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc.clone(), msg.clone()));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Pass,
    Violation(String),
    /// The harness itself misbehaved.
    Error(String),
}

pub const HARNESS: &str = "HARNESS: ";

/// Is this panic location inside the harness (not in the code under test or its dependencies)?
fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub fn run_case(f: CaseFn, tape: &mut Tape, ctx: &mut Ctx) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(tape, ctx)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) if m.starts_with(HARNESS) => Outcome::Error(m),
        Ok(Err(m)) => Outcome::Violation(m),
        Err(_) => {
            let last = LAST_PANIC.with(|p| p.borrow_mut().take());
            let (loc, msg) = match last {
                Some(x) => x,
                None => FOREIGN_PANIC
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .clone()
                    .unwrap_or_default(),
            };
            if in_harness(&loc) {
                Outcome::Error(format!("harness panic at {}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

/// Catches a panic of the code under test inside `f`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|_| {
        let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if in_harness(&loc) {
            format!("{}panic at {}: {}", HARNESS, loc, msg)
        } else {
            format!("panic at {}: {}", loc, msg)
        }
    })
}

// ------------------------------------------------------------ watchdog

struct Slot {
    /// case index + 1, 0 = idle
    case: AtomicU64,
    clock: AtomicU64,
    start_cpu: AtomicU64,
    /// milliseconds since the check began
    start_wall: AtomicU64,
}

fn cpu_ns(clock: libc::clockid_t) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

fn thread_clock() -> libc::clockid_t {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    }
}

// ------------------------------------------------------------ running

#[derive(Default)]
struct Agg {
    evaluations: u64,
    labels: BTreeMap<String, u64>,
    nums: BTreeMap<String, u64>,
    maxs: BTreeMap<String, u64>,
    fps: BTreeSet<u64>,
    nontrivial: u64,
    samples: BTreeMap<u64, J>,
    findings: BTreeSet<String>,
    /// Cases not run because time was up.
    left_out: u64,
}

/// No further case is started after this, so that a check ends in time on a very busy machine too.
const QUICK_LIMIT: Duration = Duration::from_secs(600);

pub struct Failure {
    pub index: u64,
    pub tape: Option<Vec<u64>>,
    pub msg: String,
}

pub fn case_seed(seed: u64, check: &str, family: &str, index: u64) -> u64 {
    mix(mix(seed, hash_str(check)), mix(hash_str(family), index))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Lines `finding: property=<id> id=<name> <what fails>`.
fn known_finding(property: &str, id: &str) -> Option<String> {
    static LIST: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    let list = LIST.get_or_init(|| {
        let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
        text.lines()
            .filter_map(|l| l.strip_prefix("finding: property="))
            .filter_map(|l| {
                let (p, rest) = l.split_once(' ')?;
                let (i, what) = rest.strip_prefix("id=")?.split_once(' ')?;
                Some((p.to_string(), i.to_string(), what.to_string()))
            })
            .collect()
    });
    list.iter().find(|(p, i, _)| p == property && i == id).map(|(_, i, w)| format!("[{}] {}", i, w))
}

fn write_replay(check: &Check, fam: &Family, seed: u64, f: &Failure, hang: bool) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{}-{}-{}-{}.json", check.id, fam.name, seed, f.index));
    let doc = json!({
        "property": check.id, "family": fam.name, "seed": seed, "index": f.index,
        "tape": f.tape, "message": f.msg, "hang": hang,
        "how": "bash /verif/check.sh replay <this file>",
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
    path
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub scale: f64,
    pub begun: Instant,
    /// Seconds of coverage-guided search per family.
    pub guided: u64,
}

/// Shrinks on a thread of its own: a candidate that hangs costs the rest of the shrinking only.
fn shrink(fam: &Family, tape: Vec<u64>, msg: String, thorough: bool) -> (Vec<u64>, String) {
    let best = Arc::new(Mutex::new((tape.clone(), msg.clone())));
    let (tx, rx) = std::sync::mpsc::channel();
    let (fam, shared) = (fam.clone(), best.clone());
    let spawned = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        shrink_on(&fam, tape, msg, thorough, &shared);
        tx.send(()).ok();
    });
    if spawned.is_ok() {
        rx.recv_timeout(Duration::from_secs(SHRINK_SECS + 30)).ok();
    }
    let b = best.lock().unwrap_or_else(|e| e.into_inner());
    b.clone()
}

const SHRINK_SECS: u64 = 60;

/// Deletes and lowers tape entries while the case keeps failing.
fn shrink_on(fam: &Family, tape: Vec<u64>, msg: String, thorough: bool, shared: &Mutex<(Vec<u64>, String)>) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut budget = fam.shrink;
    let deadline = Instant::now() + Duration::from_secs(SHRINK_SECS);
    let mut attempt = |cand: &[u64], best_msg: &mut String| -> Option<Vec<u64>> {
        if budget == 0 || Instant::now() > deadline {
            return None;
        }
        budget -= 1;
        let mut t = Tape::replay(cand.to_vec());
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        match run_case(fam.case, &mut t, &mut ctx) {
            Outcome::Violation(m) => {
                let mut out = t.out;
                while out.last() == Some(&0) {
                    out.pop();
                }
                *best_msg = m;
                let mut s = shared.lock().unwrap_or_else(|e| e.into_inner());
                if out.len() < s.0.len() || (out.len() == s.0.len() && out < s.0) {
                    *s = (out.clone(), best_msg.clone());
                }
                Some(out)
            }
            _ => None,
        }
    };
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let start = best.clone();
        // truncation
        let mut len = best.len() / 2;
        while len < best.len() {
            match attempt(&best[..len].to_vec(), &mut best_msg) {
                Some(c) if smaller(&c, &best) => {
                    best = c;
                    len = best.len() / 2;
                }
                _ => len += ((best.len() - len) / 2).max(1),
            }
        }
        // deletion of chunks
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + chunk).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                match attempt(&cand, &mut best_msg) {
                    Some(c) if smaller(&c, &best) => best = c,
                    _ => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // lowering of entries
        let mut i = 0;
        while i < best.len() {
            for v in [0, 1, best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && v < best[i] {
                    let mut cand = best.clone();
                    cand[i] = v;
                    if let Some(c) = attempt(&cand, &mut best_msg) {
                        if smaller(&c, &best) {
                            best = c;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == start {
            break;
        }
        if Instant::now() > deadline {
            break;
        }
    }
}

fn run_family(check: &Check, fam: &Family, opts: &Opts, agg: &mut Agg) -> Result<(), (Failure, bool)> {
    let total = (((if opts.thorough { fam.thorough } else { fam.quick }) as f64) * opts.scale).ceil() as u64;
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let failures: Mutex<BTreeMap<u64, (Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
    let errors: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let shared: Mutex<&mut Agg> = Mutex::new(agg);
    let threads = fam.threads.min(total.max(1) as usize).max(1);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot { case: AtomicU64::new(0), clock: AtomicU64::new(0), start_cpu: AtomicU64::new(0), start_wall: AtomicU64::new(0) })
            .collect(),
    );
    let live = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        for ti in 0..threads {
            let (next, stop_at, failures, errors, shared, slots, live) =
                (&next, &stop_at, &failures, &errors, &shared, &slots, &live);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let slot = &slots[ti];
                    let clock = thread_clock();
                    slot.clock.store(clock as u32 as u64, Ordering::SeqCst);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                        if !opts.thorough && opts.begun.elapsed() > QUICK_LIMIT {
                            shared.lock().unwrap().left_out += 1;
                            continue;
                        }
                        slot.start_cpu.store(cpu_ns(clock), Ordering::SeqCst);
                        slot.start_wall.store(opts.begun.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slot.case.store(i + 1, Ordering::SeqCst);
                        // what the harness could not get done (a process not started, say) is tried again
                        let mut attempts = 0;
                        let (r, tape, ctx) = loop {
                            let mut tape = Tape::random(case_seed(opts.seed, check.id, fam.name, i));
                            let mut ctx = Ctx { thorough: opts.thorough, ..Ctx::default() };
                            let r = run_case(fam.case, &mut tape, &mut ctx);
                            attempts += 1;
                            match r {
                                Outcome::Error(m) if attempts < 3 => eprintln!("{} case {}, tried again: {}", fam.name, i, m),
                                r => break (r, tape, ctx),
                            }
                        };
                        slot.case.store(0, Ordering::SeqCst);
                        match r {
                            Outcome::Pass => {}
                            Outcome::Violation(m) => {
                                stop_at.fetch_min(i, Ordering::SeqCst);
                                failures.lock().unwrap().insert(i, (tape.out.clone(), m));
                            }
                            Outcome::Error(m) => {
                                stop_at.fetch_min(0, Ordering::SeqCst);
                                errors.lock().unwrap().push(format!("{} case {}: {}", fam.name, i, m));
                            }
                        }
                        let mut a = shared.lock().unwrap();
                        a.evaluations += 1;
                        for l in &ctx.labels {
                            *a.labels.entry(format!("{}/{}", fam.name, l)).or_default() += 1;
                        }
                        for (k, v) in &ctx.nums {
                            *a.nums.entry(format!("{}/{}", fam.name, k)).or_default() += v;
                            let e = a.maxs.entry(format!("{}/{}", fam.name, k)).or_default();
                            *e = (*e).max(*v);
                        }
                        for f in ctx.findings {
                            a.findings.insert(f);
                        }
                        if let Some(fp) = ctx.nontrivial {
                            a.nontrivial += 1;
                            a.fps.insert(mix(fp, hash_str(fam.name)));
                            if let Some(s) = ctx.sample {
                                if i < 4000 && a.samples.len() < 6 || a.samples.keys().next_back().map_or(false, |k| *k > i) {
                                    a.samples.insert(i, json!({"family": fam.name, "case": i, "input": s}));
                                    while a.samples.len() > 6 {
                                        let k = *a.samples.keys().next_back().unwrap();
                                        a.samples.remove(&k);
                                    }
                                }
                            }
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let limit = fam.cpu_limit * 1_000_000_000;
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(if total < 2000 { 5 } else { 50 }));
            if limit == 0 && fam.wall_limit == 0 {
                continue;
            }
            for slot in slots.iter() {
                let c = slot.case.load(Ordering::SeqCst);
                if c == 0 {
                    continue;
                }
                let start = slot.start_cpu.load(Ordering::SeqCst);
                let clock = slot.clock.load(Ordering::SeqCst) as u32 as libc::clockid_t;
                let now = cpu_ns(clock);
                let long = opts.begun.elapsed().as_millis() as u64 > slot.start_wall.load(Ordering::SeqCst) + fam.wall_limit * 1000;
                let over = limit > 0 && now > start + limit || fam.wall_limit > 0 && long;
                if over && slot.case.load(Ordering::SeqCst) == c {
                    let f = Failure {
                        index: c - 1,
                        tape: None,
                        msg: if fam.wall_limit > 0 {
                            format!("the run never returns: one case took {} s (cases take milliseconds)", fam.wall_limit)
                        } else {
                            format!("the run never returns: one case used {} s of CPU time (cases take milliseconds)", fam.cpu_limit)
                        },
                    };
                    let path = write_replay(check, fam, opts.seed, &f, true);
                    println!("family {} case {}: {}", fam.name, f.index, f.msg);
                    println!("VIOLATION property={} replay={}", check.id, path.display());
                    std::io::stdout().flush().ok();
                    std::process::exit(1);
                }
            }
        }
    });
    let errors = errors.into_inner().unwrap();
    if let Some(e) = errors.first() {
        // A violation found besides harness errors is still reported below.
        if failures.lock().unwrap().is_empty() {
            return Err((Failure { index: 0, tape: None, msg: e.clone() }, true));
        }
    }
    let failures = failures.into_inner().unwrap();
    if let Some((i, (tape, msg))) = failures.into_iter().next() {
        println!("family {} case {} fails: {}", fam.name, i, msg);
        let (tape, msg) = if fam.shrink > 0 { shrink(fam, tape, msg, opts.thorough) } else { (tape, msg) };
        return Err((Failure { index: i, tape: Some(tape), msg }, false));
    }
    Ok(())
}

pub fn run_check(check: &Check, opts: &Opts) -> i32 {
    let t0 = Instant::now();
    let mut agg = Agg::default();
    let mut samples = Vec::new();
    let mut per_family = serde_json::Map::new();
    let mut violation: Option<String> = None;
    let mut rules = Vec::new();
    for fam in &check.families {
        if let Some(o) = &opts.only {
            if o != fam.name {
                continue;
            }
        }
        let tf = Instant::now();
        let (e0, n0, d0) = (agg.evaluations, agg.nontrivial, agg.fps.len());
        agg.samples.clear();
        let r = run_family(check, fam, opts, &mut agg);
        samples.extend(agg.samples.values().take(3).cloned());
        per_family.insert(
            fam.name.to_string(),
            json!({
                "evaluations": agg.evaluations - e0,
                "nontrivial": agg.nontrivial - n0,
                "distinct_nontrivial": agg.fps.len() - d0,
                "wall_s": tf.elapsed().as_secs_f64(),
            }),
        );
        rules.push(format!("[{}] {}", fam.name, fam.rule));
        println!(
            "{} {}: {} cases, {} non-trivial ({} distinct), {:.1} s",
            check.id,
            fam.name,
            agg.evaluations - e0,
            agg.nontrivial - n0,
            agg.fps.len() - d0,
            tf.elapsed().as_secs_f64()
        );
        if let Err((f, harness)) = r {
            if harness {
                eprintln!("ERROR of the check: {}", f.msg);
                return 2;
            }
            let path = write_replay(check, fam, opts.seed, &f, false);
            println!("family {} shrunk: {}", fam.name, f.msg);
            violation = Some(format!("VIOLATION property={} replay={}", check.id, path.display()));
            break;
        }
    }
    let mut guided = serde_json::Map::new();
    if violation.is_none() && opts.guided > 0 {
        for fam in &check.families {
            let wanted = opts.only.as_ref().map_or(true, |o| o == fam.name);
            if !wanted || !crate::fuzz::FUZZED.contains(&(check.id, fam.name)) {
                continue;
            }
            let (report, found) = match crate::fuzz::search(check, fam, opts.seed, 8, opts.guided) {
                Ok(r) => r,
                Err(m) => {
                    eprintln!("ERROR of the check: coverage-guided search: {}", m);
                    return 2;
                }
            };
            println!("{} {}, coverage-guided: {}", check.id, fam.name, report);
            guided.insert(fam.name.to_string(), report);
            if let Some(f) = found {
                println!("family {}, coverage-guided search fails: {}", fam.name, f.msg);
                let (tape, msg) = if fam.shrink > 0 { shrink(fam, f.tape, f.msg, false) } else { (f.tape, f.msg) };
                let f = Failure { index: 0, tape: Some(tape), msg };
                let path = write_replay(check, fam, opts.seed, &f, false);
                println!("family {} shrunk: {}", fam.name, f.msg);
                violation = Some(format!("VIOLATION property={} replay={}", check.id, path.display()));
                break;
            }
        }
    }
    if agg.left_out > 0 {
        println!("{} cases were left out because {} s were over", agg.left_out, QUICK_LIMIT.as_secs());
    }
    for f in &agg.findings {
        println!("KNOWN-FINDING: property={} {}", check.id, f);
    }
    let ev = json!({
        "property": check.id,
        "tier": if opts.thorough { "thorough" } else { "quick" },
        "seed": opts.seed,
        "level": check.level,
        "coverage": {
            "evaluations": agg.evaluations,
            "distinct_nontrivial": agg.fps.len(),
            "rule": rules.join(" "),
            "samples": samples,
            "families": per_family,
            "labels": agg.labels,
            "totals": agg.nums,
            "maxima": agg.maxs,
            "known_findings_seen": agg.findings,
            "coverage_guided": guided,
            "cases_left_out_for_lack_of_time": agg.left_out,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    if opts.only.is_none() {
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", check.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("ERROR of the check: cannot write evidence: {}", e);
            return 2;
        }
    } else {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    match violation {
        Some(v) => {
            println!("{}", v);
            1
        }
        None => 0,
    }
}

pub fn replay(check: &Check, doc: &J) -> i32 {
    let fam = match check.families.iter().find(|f| Some(f.name) == doc["family"].as_str()) {
        Some(f) => f,
        None => {
            eprintln!("unknown family");
            return 2;
        }
    };
    let mut tape = match doc["tape"].as_array() {
        Some(a) => Tape::replay(a.iter().map(|v| v.as_u64().unwrap_or(0)).collect()),
        None => Tape::random(case_seed(
            doc["seed"].as_u64().unwrap_or(1),
            check.id,
            fam.name,
            doc["index"].as_u64().unwrap_or(0),
        )),
    };
    let mut ctx = Ctx { verbose: true, ..Ctx::default() };
    if doc["hang"].as_bool() == Some(true) {
        let secs = fam.cpu_limit + 5;
        let wall = fam.wall_limit;
        let t0 = Instant::now();
        let clock = thread_clock();
        let start = cpu_ns(clock);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if wall > 0 && t0.elapsed() > Duration::from_secs(wall) || wall == 0 && cpu_ns(clock) > start + secs * 1_000_000_000 {
                println!("still fails: the run never returns");
                std::process::exit(1);
            }
        });
    }
    match run_case(fam.case, &mut tape, &mut ctx) {
        Outcome::Pass => {
            println!("passes now; sample: {}", ctx.sample.unwrap_or(J::Null));
            0
        }
        Outcome::Violation(m) => {
            println!("sample: {}", ctx.sample.unwrap_or(J::Null));
            println!("still fails: {}", m);
            1
        }
        Outcome::Error(m) => {
            eprintln!("{}", m);
            2
        }
    }
}
