use super::runs::*;
use crate::drive::*;
use crate::engine::{Check, Ctx, Family, HARNESS};
use crate::model::*;
use crate::tape::Tape;
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};

/// A run in whose course nothing depends on timing: one completion at a time, no terminate
/// command, and completions inside evaluate() only when one evaluation is in flight.
pub fn gen_cfg(t: &mut Tape) -> Cfg {
    let mut c = base(t);
    if t.chance(2, 3) {
        let g = GenCfg { max_depth: t.usize(0, 4), size: t.usize(1, 24), ..GenCfg::default() };
        c.spec = gen_spec(t, &g);
        c.guess = if t.chance(1, 3) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
    }
    c.p_batch = 0;
    c.p_stubborn = 0;
    c.p_abort_value = 0;
    c.p_immediate = if c.nc == 1 { *t.pick(&[0, 500, 1000]) } else { 0 };
    c.budget = Some(match t.weighted(&[10, 10, 40, 1]) {
        0 => t.usize(80, 200),
        1 => t.usize(0, 3),
        2 => t.usize(5, 60),
        _ => {
            bound_maps(&mut c.spec);
            if c.guess.is_some() {
                c.guess = Some(json_of(&gen_value(t, &c.spec)));
            }
            t.usize(300, 2000)
        }
    });
    c.cap = 1_000_000;
    if t.chance(1, 5) {
        with_target(t, &mut c);
    }
    c
}

/// Runs `b` with the decisions `a` was run with.
pub fn twin(t: &mut Tape, a: &Cfg, b: &Cfg) -> Result<(Run, Run), String> {
    let from = t.out.len();
    let ra = run(t, a)?;
    let mut t2 = Tape::replay(t.out[from..].to_vec());
    let rb = run(&mut t2, b)?;
    Ok((ra, rb))
}

pub fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {} of the trace: {:?} against {:?}", i, x, y);
        }
    }
    format!("traces of {} and {} lines", a.lines().count(), b.lines().count())
}

fn nontrivial(r: &Run, ctx: &mut Ctx) {
    r.labels(ctx);
    if r.evals.len() > 3 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
}

fn same_process(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let a = gen_cfg(t);
    let mut b = a.clone();
    b.rt_seed = a.rt_seed ^ 0x5555;
    b.report_cap = *t.pick(&[16, 0, 1]);
    let between = t.chance(1, 2);
    let from = t.out.len();
    let ra = run(t, &a)?;
    let part = t.out[from..].to_vec();
    let other_thread = t.chance(1, 2);
    if between {
        let mut c = gen_cfg(t);
        c.budget = Some(t.usize(1, 20));
        run(t, &c)?;
    }
    let rb = if other_thread {
        ctx.label("second run on another thread");
        let b = b.clone();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || run(&mut Tape::replay(part), &b))
            .map_err(|e| format!("{}{}", HARNESS, e))?
            .join()
            .map_err(|_| format!("{}thread", HARNESS))??
    } else {
        run(&mut Tape::replay(part), &b)?
    };
    nontrivial(&ra, ctx);
    let (ta, tb) = (ra.trace(), rb.trace());
    if ta != tb {
        return ra.fail(format!("two runs with the same inputs differ: {}", first_difference(&ta, &tb)));
    }
    Ok(())
}

/// Two runs that take turns in one thread, against the first of them alone.
fn interleaved(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let a = gen_cfg(t);
    let from = t.out.len();
    let ra = run(t, &a)?;
    let part = t.out[from..].to_vec();
    let b = if t.chance(1, 4) { a.clone() } else { gen_cfg(t) };
    let (x, _) = run_pair((&mut Tape::replay(part), &a), (t, &b))?;
    nontrivial(&ra, ctx);
    let (ta, tb) = (ra.trace(), x.trace());
    if ta != tb {
        return ra.fail(format!("a run differs when another one takes turns with it: {}", first_difference(&ta, &tb)));
    }
    Ok(())
}

fn traced(words: Vec<u64>) -> Result<String, String> {
    let mut t = Tape::replay(words);
    let c = gen_cfg(&mut t);
    Ok(run(&mut t, &c)?.trace())
}

struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{} {} {}", r.level(), r.target(), r.args()));
    }
    fn flush(&self) {}
}

/// `vh digest [log]`: one JSON array of tape words per line on stdin, one JSON string (the trace) per line out.
/// With `log`, everything the code logs is formatted and thrown away.
pub fn digest_main(logging: bool) -> i32 {
    if logging {
        log::set_logger(&SINK).ok();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return 2 };
        let Ok(words) = serde_json::from_str::<Vec<u64>>(&line) else { return 2 };
        let r = match traced(words) {
            Ok(s) => json!(s),
            Err(e) => json!({ "error": e }),
        };
        if writeln!(out, "{}", r).is_err() {
            return 2;
        }
    }
    0
}

fn other_process(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    repeated(t, ctx, false)
}

/// C15: runs without a logger against the same runs in a process that logs everything.
pub fn logging(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    repeated(t, ctx, true)
}

fn repeated(t: &mut Tape, ctx: &mut Ctx, logging: bool) -> Result<(), String> {
    let n = t.usize(1, 24);
    let mut parts = Vec::new();
    let mut runs = Vec::new();
    for _ in 0..n {
        let from = t.out.len();
        let c = gen_cfg(t);
        let r = run(t, &c)?;
        parts.push(t.out[from..].to_vec());
        nontrivial(&r, ctx);
        runs.push(r);
    }
    let he = |e: &dyn std::fmt::Display| format!("{}digest process: {}", HARNESS, e);
    let exe = std::env::current_exe().map_err(|e| he(&e))?;
    let mut cmd = Command::new(exe);
    cmd.arg("digest");
    if logging {
        cmd.arg("log");
    }
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let other = crate::cli::surroundings(t);
    crate::cli::surround(&mut cmd, &other);
    cmd.current_dir(*t.pick(&["/", "/tmp", "/usr"]));
    // a slow machine
    let speed = *t.pick(&[1u64, 1, 1000, 100_000, 3_000_000]);
    if speed != 1 {
        crate::cli::preload(&mut cmd).env("VH_SPEED", speed.to_string());
        ctx.label("slowed down");
    }
    if other["cpus"] != json!(0) {
        ctx.label("fewer processors");
    }
    if other["clear"] == json!(true) {
        ctx.label("empty environment");
    }
    let mut child = cmd.spawn().map_err(|e| he(&e))?;
    let input: String = parts.iter().map(|p| serde_json::to_string(p).unwrap() + "\n").collect();
    let mut stdin = child.stdin.take().unwrap();
    let feeder = std::thread::spawn(move || stdin.write_all(input.as_bytes()).is_ok());
    let out = child.wait_with_output().map_err(|e| he(&e))?;
    feeder.join().ok();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = text.lines().collect();
    for (i, r) in runs.iter().enumerate() {
        let Some(line) = lines.get(i) else {
            return r.fail(format!("the run ends the process it is repeated in ({:?})", out.status));
        };
        let got: J = serde_json::from_str(line).map_err(|e| he(&e))?;
        let want = r.trace();
        match got.as_str() {
            Some(s) if s == want => {}
            Some(s) => {
                return r.fail(format!(
                    "the same run {} differs: {}",
                    if logging { "with logging" } else { "in another process" },
                    first_difference(&want, s)
                ))
            }
            None if logging => return r.fail(format!("the same run with logging: {}", got["error"])),
            None => return Err(he(&got)),
        }
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        families: vec![
            Family::new("same_process", 40000, 900000, same_process, "a generated run repeated with the same objective results in the same completion order, but another runtime seed, another report buffer, sometimes another run in between, sometimes on another thread; the traces (values, ids, seeds, adaptive parameters, report) must be equal; non-trivial: more than 3 evaluations").cpu(60),
            Family::new("interleaved", 15000, 400000, interleaved, "a generated run repeated with the same objective results in the same completion order while another run takes turns with it in the same thread, one event each; the traces must be equal; non-trivial: more than 3 evaluations").cpu(60),
            Family::new("other_process", 600, 12000, other_process, "up to 24 generated runs repeated in a fresh process with other environment variables, program name, working directory and number of processors; non-trivial: more than 3 evaluations").shrink(120).cpu(60),
            Family::new("library", 1500, 30000, super::embedded::again, "sync_launch twice in one process with the same objective (closure or async, also with a signal handler, other evaluation times), one evaluation at a time; calls and report must be equal; non-trivial: more than 3 evaluations").threads(8).shrink(200).cpu(0).wall(240),
            Family::new("binary", 400, 8000, super::procs::twice, "the real binary run twice in different directories, once verbose, with the same objective program; at concurrency > 1 the children end in the order of their starts; calls, stdout and detailed report must be equal; non-trivial: more than one evaluation").threads(12).shrink(120).cpu(0),
        ],
        assumptions: vec!["completions are delivered one at a time; objective results are a function of the choices recorded for the first run"],
    }
}
