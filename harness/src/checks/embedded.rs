//! The library entry points `sync_launch::launch` (closures on worker threads) and
//! `launch_with_async_obj_func` (async objective functions), with report files, on real time.
use super::c11::same_json;
use super::cliruns::{check_best_file, csv_rows, read, Row};
use super::runs::{gen_sample, tiny_spec};
use crate::cli::Scratch;
use crate::engine::{Ctx, HARNESS};
use crate::model::*;
use crate::tape::{hash_str, mix, Tape};
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::meta::{make_obj_func, AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::spec::{Node, Spec};
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion;
use serde_json::{json, Value as J};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// No evaluation waits longer than this for others to be started.
const STANDSTILL: Duration = Duration::from_secs(30);

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    /// C02: the report is the best of what was evaluated.
    Best,
    /// C03: the budget.
    Budget,
    /// C04: target and time limit.
    Stop,
    /// C05: how many at a time.
    Concurrency,
    /// C06: failures (async objective functions only).
    Failure,
    /// C14: counts and files.
    Files,
}

#[derive(Clone, Debug)]
struct Call {
    value: J,
    seed: Option<u64>,
    id: Option<usize>,
    start: Instant,
    /// None while running; Some(None) is an abandoned call.
    end: Option<Instant>,
    out: Result<Option<f64>, String>,
}

struct Shared {
    calls: Mutex<Vec<Call>>,
    more: Condvar,
    cfg: Cfg,
    stuck: Mutex<bool>,
}

#[derive(Clone, Debug)]
struct Cfg {
    spec: Node,
    nc: usize,
    sample: usize,
    budget: Option<usize>,
    target: Option<f64>,
    after_ms: Option<u64>,
    salt: u64,
    reject: u64,
    fail_at: Option<usize>,
    barrier: u64,
    pause: u64,
    style: u64,
    in_process: bool,
    files: bool,
    /// Also to be terminated by a signal (that never comes).
    signal: bool,
    /// A time limit that does not come into it.
    far: Option<Duration>,
}

/// How often evaluations waited in vain for others (C05 reports that): the rest of the check does without.
static STANDS_STILL: AtomicUsize = AtomicUsize::new(0);

impl Shared {
    fn begin(&self, value: &J, seed: Option<u64>, id: Option<usize>) -> usize {
        let mut c = self.calls.lock().unwrap();
        c.push(Call { value: value.clone(), seed, id, start: Instant::now(), end: None, out: Ok(None) });
        self.more.notify_all();
        c.len() - 1
    }
    /// The result is a function of the parameters (and seed), rejections too.
    fn outcome(&self, i: usize) -> Result<Option<f64>, String> {
        let c = self.calls.lock().unwrap();
        if self.cfg.fail_at == Some(i) {
            return Err(format!("failure of call {}", i));
        }
        let text = format!("{}{:?}", c[i].value, c[i].seed);
        let h = mix(hash_str(&text), self.cfg.salt);
        if h % 1000 < self.cfg.reject {
            return Ok(None);
        }
        let h = h >> 20;
        Ok(Some(match self.cfg.style {
            0 => (h % 1024) as f64 / 8.0,
            1 => (h % 4) as f64,
            2 => i as f64,
            3 => -(i as f64),
            // any float below the threshold of what is accepted
            4 => {
                let x = f64::from_bits(mix(h, 1));
                if x.abs() < 1e300 { x } else { 0.25 }
            }
            // neighbours
            5 => {
                let base = [1.0f64, -1.0, 1e15 + 0.5, 123456789.125, 3e-5, -7e200, 1e-13][self.cfg.salt as usize % 7];
                (0..h % 12).fold(base, |v: f64, _| v.next_down())
            }
            // any digits, any magnitude
            _ => {
                let m = (mix(h, 2) >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
                m * 10f64.powi((mix(h, 3) % 40) as i32 - 20)
            }
        }))
    }
    fn wanted(&self, i: usize) -> Option<usize> {
        if STANDS_STILL.load(Ordering::Relaxed) >= 4 {
            return None;
        }
        let pick = mix(i as u64, self.cfg.salt) % 100;
        (pick < self.cfg.barrier).then(|| (i + self.cfg.nc).min(self.cfg.budget.unwrap_or(usize::MAX)))
    }
    fn pause(&self, i: usize) -> Duration {
        if i > 200_000 {
            // a run that never ends: the watchdog's business
            return Duration::from_millis(20);
        }
        if self.cfg.pause == 0 {
            return Duration::ZERO;
        }
        Duration::from_micros(mix(i as u64 + 7, self.cfg.salt) % self.cfg.pause)
    }
    fn finish(&self, i: usize) -> Result<Option<f64>, String> {
        let out = self.outcome(i);
        let mut c = self.calls.lock().unwrap();
        c[i].out = out.clone();
        c[i].end = Some(Instant::now());
        out
    }
}

fn blocking(s: &Shared, value: J) -> Option<f64> {
    let i = s.begin(&value, None, None);
    if let Some(n) = s.wanted(i) {
        let c = s.calls.lock().unwrap();
        let (c, timeout) = s.more.wait_timeout_while(c, STANDSTILL, |c| c.len() < n).unwrap();
        drop(c);
        if timeout.timed_out() {
            *s.stuck.lock().unwrap() = true;
            STANDS_STILL.fetch_add(1, Ordering::Relaxed);
        }
    }
    let p = s.pause(i);
    if !p.is_zero() {
        std::thread::sleep(p);
    }
    s.finish(i).unwrap_or(None)
}

struct AsyncObj(Arc<Shared>);

#[async_trait]
impl AsyncObjectiveFunction for AsyncObj {
    async fn evaluate(&self, value: J, mut abort: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Result<Option<f64>, Error> {
        let s = &self.0;
        let i = s.begin(&value, Some(seed), Some(id));
        let work = async {
            if let Some(n) = s.wanted(i) {
                let t0 = Instant::now();
                while s.calls.lock().unwrap().len() < n {
                    if t0.elapsed() > STANDSTILL {
                        *s.stuck.lock().unwrap() = true;
                        STANDS_STILL.fetch_add(1, Ordering::Relaxed);
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(300)).await;
                }
            }
            let p = s.pause(i);
            if !p.is_zero() {
                tokio::time::sleep(p).await;
            }
        };
        tokio::select! {
            _ = work => {}
            _ = abort.recv() => {
                let mut c = s.calls.lock().unwrap();
                c[i].end = Some(Instant::now());
                return Ok(None);
            }
        }
        s.finish(i).map_err(|m| Error::Io(std::io::Error::new(std::io::ErrorKind::Other, m)))
    }
}

fn gen(t: &mut Tape, aspect: Aspect) -> Cfg {
    let spec = if t.chance(1, 2) {
        tiny_spec(t)
    } else {
        let size = t.usize(1, 10);
        gen_spec(t, &GenCfg { max_depth: 2, size, ..GenCfg::default() })
    };
    // more than there are processors
    let many = t.chance(1, if aspect == Aspect::Concurrency { 4 } else { 8 });
    let mut c = Cfg {
        spec,
        nc: *t.pick(if many { &[12, 17, 24, 40, 70][..] } else { &[1, 2, 3, 4, 6, 8][..] }),
        sample: if t.chance(1, 4) { gen_sample(t) } else { 1 },
        budget: Some(if t.chance(1, 6) { t.usize(100, 400) } else { t.usize(0, 40) }),
        target: None,
        after_ms: None,
        salt: t.below(1 << 32),
        reject: *t.pick(&[0, 0, 150, 600]),
        fail_at: None,
        barrier: *t.pick(&[0, 50, 100]),
        pause: *t.pick(&[0, 300, 3000]),
        style: t.below(4),
        in_process: t.chance(2, 3),
        files: aspect == Aspect::Files || t.chance(1, 4),
        signal: t.chance(1, 4),
        far: None,
    };
    if c.sample == 1 && matches!(aspect, Aspect::Best | Aspect::Files) && t.chance(1, 2) {
        c.style = 4 + t.below(3);
    }
    if aspect == Aspect::Files && t.chance(1, 12) {
        // records of some thousand to a quarter of a million characters
        let (n, most) = match t.below(4) {
            0 | 1 => (t.usize(100, 900), 60),
            2 => (t.usize(900, 4000), 30),
            _ => (t.usize(4000, 14_000), 12),
        };
        c.spec = Node::Array { size: n, value_type: Box::new(Node::Real { init: 0.12345678901234567, scale: 1.0, min: None, max: None }) };
        c.budget = c.budget.map(|b| b.min(most));
    }
    if aspect == Aspect::Stop {
        c.budget = *t.pick(&[None, None, Some(100_000), Some((1 << 32) + 2), Some(usize::MAX)]);
        c.sample = 1;
        c.barrier = c.barrier.min(50);
        if t.chance(1, 2) {
            c.style = *t.pick(&[0, 3]);
            c.reject = c.reject.min(150);
            c.target = Some(if c.style == 3 { -(t.usize(1, 60) as f64) } else { t.usize(2, 16) as f64 });
            // it may never be reached
            c.budget = Some(600);
            c.pause = c.pause.min(1000);
        } else {
            c.after_ms = Some(if t.chance(1, 6) { *t.pick(&[0, 0, 1, 3]) } else { 20 + 20 * t.below(8) });
            c.pause = 3000;
        }
    }
    if aspect == Aspect::Budget && t.chance(1, 10) {
        // no run comes near to it: the target ends the run
        c.budget = Some(super::runs::huge(t));
        c.nc = *t.pick(&[1, 2, 3, 4, 8]);
        c.sample = 1;
        c.style = 3;
        // a spec of few values, all rejected, would go on for ever
        c.reject = 0;
        c.target = Some(-(t.usize(10, 60) as f64));
    }
    if aspect == Aspect::Failure || aspect == Aspect::Files && t.chance(1, 4) {
        c.in_process = t.chance(1, 3);
        c.fail_at = c.budget.map(|n| t.usize(0, n.max(1) - 1));
    }
    if aspect == Aspect::Files && t.chance(1, 4) {
        c.target = Some(t.range(-40, 12) as f64);
        c.sample = 1;
    }
    if c.after_ms.is_none() && t.chance(1, 5) {
        c.far = Some(*t.pick(&[
            Duration::from_millis((1 << 32) + 5),
            Duration::from_micros((1 << 32) + 5000),
            Duration::from_secs(1 << 32),
            Duration::from_secs((1 << 63) / 1_000_000_000 + 1),
            Duration::from_secs(18_446_744_073_710),
            Duration::from_secs(18_446_744_073_709_552),
            Duration::from_secs(1 << 53),
            Duration::from_secs(u64::MAX),
            Duration::MAX,
        ]));
    }
    if c.target.is_some() || c.after_ms.is_some() || c.fail_at.is_some() {
        // a closure cannot be aborted
        c.barrier = 0;
    }
    c
}

pub fn embedded(t: &mut Tape, ctx: &mut Ctx, aspect: Aspect) -> Result<(), String> {
    let cfg = gen(t, aspect);
    let closure = cfg.fail_at.is_none() && cfg.in_process && t.chance(3, 4);
    let scratch = if cfg.files { Some(Scratch::new("embedded")?) } else { None };
    let info = scratch.as_ref().map(|s| DetailedReportingFileInfo { detailed_report_file_path: s.path.join("report.csv"), best_seen_file_path: s.path.join("best.json") });
    let shared = Arc::new(Shared { calls: Mutex::new(Vec::new()), more: Condvar::new(), cfg: cfg.clone(), stuck: Mutex::new(false) });
    let algo = AlgoConfigBuilder::new().individual_sample_size(cfg.sample).num_concurrent(cfg.nc).build().map_err(|e| format!("{}{}", HARNESS, e))?;
    let mut crit = Vec::new();
    if let Some(n) = cfg.budget {
        crit.push(TerminationCriterion::NumObjFuncEval(n));
    }
    if let Some(x) = cfg.target {
        crit.push(TerminationCriterion::TargetObjFuncVal(x));
    }
    if let Some(d) = cfg.after_ms {
        crit.push(TerminationCriterion::TerminateAfter(Duration::from_millis(d)));
    }
    if cfg.signal {
        crit.push(TerminationCriterion::Signal);
    }
    if let Some(d) = cfg.far {
        crit.push(TerminationCriterion::TerminateAfter(d));
    }
    let spec = Spec(cfg.spec.clone());
    let t0 = Instant::now();
    let s2 = shared.clone();
    let res: Result<Result<FinalReport, Error>, String> = crate::engine::catch(|| {
        if closure {
            sync_launch::launch(spec, make_obj_func(move |v: J| blocking(&s2, v)), algo, crit, None, true, info.as_ref())
        } else {
            sync_launch::launch_with_async_obj_func(spec, AsyncObj(s2), algo, crit, None, cfg.in_process, info.as_ref())
        }
    });
    let took = t0.elapsed();
    let calls = shared.calls.lock().unwrap().clone();
    let fail = |m: String| -> Result<(), String> {
        let list: Vec<String> = calls.iter().take(40).map(|c| format!("  {} at {} us, id {:?}, seed {:?}: {:?}{}", c.value, (c.start - t0).as_micros(), c.id, c.seed, c.out, if c.end.is_none() { " (never ended)" } else { "" })).collect();
        Err(format!("{}\n{}\n{}\nresult: {:?} after {:?}\n{} calls:\n{}", m, to_yaml(&cfg.spec), format!("{:?}", Cfg { spec: Node::Bool { init: false }, ..cfg.clone() }), res, took, calls.len(), list.join("\n")))
    };
    let report = match &res {
        Err(m) => return fail(m.clone()),
        Ok(r) => r,
    };
    if *shared.stuck.lock().unwrap() && aspect == Aspect::Concurrency {
        return fail("finished evaluations are not replaced at once: the run stands still".into());
    }
    let accepted: Vec<f64> = calls.iter().filter(|c| c.end.is_some()).filter_map(|c| c.out.clone().ok().flatten()).collect();
    let min = accepted.iter().cloned().fold(f64::INFINITY, f64::min);
    let quiet_end = cfg.target.is_none() && cfg.after_ms.is_none() && cfg.fail_at.map_or(true, |i| i >= calls.len());
    // a call whose result certainly was what ended it
    let fn_of = |v: &J, x: f64| calls.iter().any(|c| c.out == Ok(Some(x)) && same_json(&c.value, v));
    match aspect {
        Aspect::Best => match report {
            Ok(r) => {
                if cfg.sample == 1 {
                    if !fn_of(&r.best_seen.value, r.best_seen.obj_func_val) {
                        return fail("the reported best-seen value and result belong to no evaluation".into());
                    }
                    if quiet_end && r.best_seen.obj_func_val != min {
                        return fail(format!("the reported minimum is {} instead of {}", r.best_seen.obj_func_val, min));
                    }
                } else if !calls.iter().any(|c| same_json(&c.value, &r.best_seen.value)) {
                    return fail("the reported parameters were never evaluated".into());
                }
            }
            Err(Error::NoIndividuals) if accepted.is_empty() || cfg.sample > 1 => {}
            Err(e) => return fail(format!("the run ends with {:?}", e)),
        },
        Aspect::Budget => {
            let reached = cfg.target.map_or(false, |x| calls.iter().any(|c| matches!(c.out, Ok(Some(v)) if v <= x)));
            if cfg.target.is_some() && !reached && cfg.budget.map_or(true, |n| calls.len() < n) {
                return fail(format!("the run ends after {} evaluations, before its target and its budget of {:?}", calls.len(), cfg.budget));
            }
            if cfg.budget.map_or(false, |n| calls.len() > n) || quiet_end && Some(calls.len()) != cfg.budget {
                return fail(format!("{} evaluations with a budget of {:?}", calls.len(), cfg.budget));
            }
            if let (Ok(r), true) = (report, quiet_end) {
                if Some(r.num_obj_func_eval_completed + r.num_obj_func_eval_rejected) != cfg.budget {
                    return fail(format!("the report's counts do not sum up to the budget {:?}", cfg.budget));
                }
            }
        }
        Aspect::Stop => {
            match report {
                Ok(r) => {
                    if !fn_of(&r.best_seen.value, r.best_seen.obj_func_val) {
                        return fail("the reported best-seen value and result belong to no evaluation".into());
                    }
                    if let Some(x) = cfg.target {
                        if !(r.best_seen.obj_func_val <= x) && min <= x {
                            return fail(format!("the run ends with {} instead of the target", r.best_seen.obj_func_val));
                        }
                    }
                }
                Err(Error::NoIndividuals) if accepted.is_empty() => {}
                Err(Error::NoIndividuals) if cfg.target.is_none() => {
                    // Only results that came in just when the run was being stopped may be lost.
                    let first = calls.iter().filter(|c| matches!(c.out, Ok(Some(_)))).filter_map(|c| c.end).min();
                    if first.map_or(false, |f| calls.iter().filter(|c| c.start > f).count() > 2 * cfg.nc) {
                        return fail("the best result is lost when the time limit is reached".into());
                    }
                }
                Err(e) => return fail(format!("the run ends with {:?}", e)),
            }
            if let Some(d) = cfg.after_ms {
                let d = Duration::from_millis(d);
                if took < d {
                    return fail(format!("the run ends after {:?}, before its time limit", took));
                }
                if let Some(c) = calls.iter().find(|c| c.start > t0 + d + Duration::from_millis(1500)) {
                    return fail(format!("an evaluation is started {:?} after the start of a run limited to {:?}", c.start - t0, d));
                }
                if took > d + Duration::from_secs(20) {
                    return fail(format!("the run limited to {:?} ends after {:?}", d, took));
                }
            }
            if let (Some(x), Some(n)) = (cfg.target, cfg.budget) {
                if calls.len() < n && !calls.iter().any(|c| matches!(c.out, Ok(Some(v)) if v <= x)) {
                    return fail("the run ends before its target is reached".into());
                }
            }
            if let Some(x) = cfg.target {
                if let Some(first) = calls.iter().filter(|c| matches!(c.out, Ok(Some(v)) if v <= x)).filter_map(|c| c.end).min() {
                    let late = calls.iter().filter(|c| c.start > first).count();
                    // results that are ready together may be replaced before the target is seen
                    if cfg.nc == 1 && late > 0 || calls.iter().any(|c| c.start > first + Duration::from_millis(1500)) {
                        return fail(format!("{} evaluations are started after the target was reached", late));
                    }
                }
            }
        }
        Aspect::Concurrency => {
            let mut events: Vec<(Instant, i32, usize)> = Vec::new();
            for (i, c) in calls.iter().enumerate() {
                events.push((c.start, 1, i));
                events.extend(c.end.map(|e| (e, -1, i)));
            }
            events.sort();
            let mut now: BTreeSet<usize> = BTreeSet::new();
            for (_, d, i) in events {
                if d < 0 {
                    now.remove(&i);
                    continue;
                }
                if calls[i].id.is_some() && now.iter().any(|k| calls[*k].id == calls[i].id) {
                    return fail(format!("individual {:?} is being evaluated twice at the same time", calls[i].id));
                }
                now.insert(i);
                if now.len() > cfg.nc {
                    return fail(format!("{} evaluations are in progress at once", now.len()));
                }
            }
        }
        Aspect::Failure => {
            let failed = cfg.fail_at.map_or(false, |i| calls.len() > i && calls[i].out.is_err());
            match report {
                Err(Error::Io(e)) if failed && Some(e.to_string()) == cfg.fail_at.map(|i| format!("failure of call {}", i)) => {}
                Err(Error::NoIndividuals) if !failed && (accepted.is_empty() || cfg.sample > 1) => {}
                Ok(_) if !failed => {}
                _ => return fail("the result is not the failure of the evaluation that failed".into()),
            }
            if let (Some(i), true) = (cfg.fail_at, failed) {
                let at = calls[i].end.unwrap_or(t0);
                if let Some(c) = calls.iter().find(|c| c.start > at + Duration::from_millis(1500)) {
                    return fail(format!("an evaluation is started {:?} after the failure", c.start - at));
                }
                let late = calls.iter().filter(|c| c.start > at).count();
                if cfg.nc == 1 && late > 0 {
                    return fail("an evaluation is started after the failure".into());
                }
            }
        }
        Aspect::Files => {
            let s = scratch.as_ref().map(|s| s.path.clone()).unwrap_or_default();
            let rows: Vec<Row> = match read(&s.join("report.csv")) {
                Some(b) => match csv_rows(&b) {
                    Ok(r) => r,
                    Err(m) => return fail(m),
                },
                None => return fail("there is no detailed report".into()),
            };
            // each record is an evaluation of its own
            let mut used = vec![false; calls.len()];
            let mut loose = 0;
            for r in &rows {
                let fits = |i: usize, used: &Vec<bool>, exact: bool| {
                    let c = &calls[i];
                    !used[i]
                        && same_json(&c.value, &r.input)
                        && c.seed.map_or(true, |s| s.to_string() == r.seed)
                        && c.id.map_or(true, |s| s as u64 == r.id)
                        && if exact { c.end.is_some() && c.out == Ok(r.obj) } else { r.obj.is_none() }
                };
                let at = (0..calls.len()).find(|i| fits(*i, &used, true)).or_else(|| {
                    loose += 1;
                    (0..calls.len()).find(|i| fits(*i, &used, false))
                });
                match at {
                    Some(i) => used[i] = true,
                    None => return fail(format!("the record {:?} is that of no evaluation", r.line)),
                }
            }
            if loose > 0 && (quiet_end || loose >= cfg.nc) {
                return fail(format!("{} records have other results than the evaluations", loose));
            }
            if quiet_end && rows.len() != calls.len() {
                return fail(format!("{} records of {} evaluations", rows.len(), calls.len()));
            }
            let seeds: BTreeSet<&String> = rows.iter().map(|r| &r.seed).collect();
            if seeds.len() != rows.len() {
                return fail("two records have the same seed".into());
            }
            for r in &rows {
                if r.meta.iter().any(|m| !m.is_empty()) {
                    for k in 0..4 {
                        let x: f64 = r.meta[k + 1].parse().unwrap_or(f64::NAN);
                        if !(if k < 3 { (0.0..=1.0).contains(&x) } else { x > 0.0 && x.is_finite() }) {
                            return fail(format!("the record {:?} has an adaptive parameter out of range", r.line));
                        }
                    }
                }
            }
            if cfg.sample == 1 {
                if let Err(m) = check_best_file(read(&s.join("best.json")), &rows) {
                    return fail(m);
                }
            }
            if let Ok(r) = report {
                let acc = rows.iter().filter(|x| x.obj.is_some()).count();
                if (r.num_obj_func_eval_completed, r.num_obj_func_eval_rejected) != (acc, rows.len() - acc) {
                    return fail(format!("the report's counts differ from the {} accepted and {} rejected records", acc, rows.len() - acc));
                }
                let m = rows.iter().filter_map(|x| x.obj).fold(f64::INFINITY, f64::min);
                if cfg.sample == 1 && m != r.best_seen.obj_func_val {
                    return fail(format!("the report's best is {}, the minimum of the records is {}", r.best_seen.obj_func_val, m));
                }
            }
            ctx.num("records", rows.len() as u64);
        }
    }
    ctx.label(if closure { "closure on worker threads" } else if cfg.in_process { "async, many threads" } else { "async, one thread" });
    ctx.label(match report {
        Ok(_) => "report",
        Err(Error::NoIndividuals) => "no individuals",
        Err(_) => "failure",
    });
    for (l, on) in [("target", cfg.target.is_some()), ("time limit", cfg.after_ms.is_some()), ("re-evaluations", cfg.sample > 1 && calls.len() > 20), ("barriers", cfg.barrier > 0)] {
        if on {
            ctx.label(l);
        }
    }
    ctx.num("evaluations", calls.len() as u64);
    if calls.len() > 1 && (cfg.nc > 1 || aspect == Aspect::Files) {
        ctx.nontrivial(&format!("{}{:?}", to_yaml(&cfg.spec), (cfg.nc, cfg.budget, cfg.salt, cfg.target, cfg.after_ms)));
    }
    ctx.sample(|| json!({"objective": if closure { "closure" } else { "async" }, "config": format!("{:?}", (cfg.nc, cfg.sample, cfg.budget, cfg.target, cfg.after_ms, cfg.fail_at)), "evaluations": calls.len(), "result": match report { Ok(r) => format!("best {} at {}", r.best_seen.obj_func_val, r.best_seen.value), Err(e) => e.to_string() }}));
    Ok(())
}

/// C09: a run is repeated in the same process, one evaluation at a time.
pub fn again(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut cfg = gen(t, Aspect::Best);
    cfg.nc = 1;
    cfg.budget = cfg.budget.map(|n| n.min(120));
    cfg.barrier = 0;
    cfg.pause = cfg.pause.min(300);
    cfg.signal = t.chance(1, 2);
    if t.chance(1, 8) {
        cfg.fail_at = cfg.budget.map(|n| t.usize(0, n.max(1) - 1));
    }
    let closure = cfg.fail_at.is_none() && cfg.in_process && t.chance(1, 2);
    let mut seen = Vec::new();
    for k in 0..2 {
        if k == 1 {
            // how long it takes does not count
            cfg.pause = *t.pick(&[0, 0, 300, 2000]);
        }
        let shared = Arc::new(Shared { calls: Mutex::new(Vec::new()), more: Condvar::new(), cfg: cfg.clone(), stuck: Mutex::new(false) });
        let algo = AlgoConfigBuilder::new().individual_sample_size(cfg.sample).num_concurrent(1).build().map_err(|e| format!("{}{}", HARNESS, e))?;
        let mut crit: Vec<_> = cfg.budget.map(TerminationCriterion::NumObjFuncEval).into_iter().collect();
        if cfg.signal {
            crit.push(TerminationCriterion::Signal);
        }
        let s2 = shared.clone();
        let res = crate::engine::catch(|| {
            let spec = Spec(cfg.spec.clone());
            if closure {
                sync_launch::launch(spec, make_obj_func(move |v: J| blocking(&s2, v)), algo, crit, None, true, None)
            } else {
                sync_launch::launch_with_async_obj_func(spec, AsyncObj(s2), algo, crit, None, cfg.in_process, None)
            }
        })?;
        let calls: Vec<_> = shared.calls.lock().unwrap().iter().map(|c| (c.value.to_string(), c.seed, c.id, format!("{:?}", c.out))).collect();
        let end = match res {
            Ok(r) => format!("best {:?} at {}, {} accepted, {} rejected", r.best_seen.obj_func_val, r.best_seen.value, r.num_obj_func_eval_completed, r.num_obj_func_eval_rejected),
            Err(e) => format!("{:?}", e),
        };
        seen.push((calls, end));
    }
    let (a, b) = (&seen[0], &seen[1]);
    if a != b {
        let at = a.0.iter().zip(&b.0).take_while(|(x, y)| x == y).count();
        return Err(format!("a run repeated in the same process differs at evaluation {}: {:?} instead of {:?}; it ends with {} instead of {}\n{}\n{:?}", at, b.0.get(at), a.0.get(at), b.1, a.1, to_yaml(&cfg.spec), (cfg.sample, cfg.budget, cfg.in_process, cfg.signal, closure)));
    }
    ctx.label(if closure { "closure on worker threads" } else if cfg.in_process { "async, many threads" } else { "async, one thread" });
    if cfg.signal {
        ctx.label("with a signal handler");
    }
    ctx.num("evaluations", a.0.len() as u64);
    if a.0.len() > 3 {
        ctx.nontrivial(&format!("{}{:?}", to_yaml(&cfg.spec), (cfg.budget, cfg.salt, cfg.sample)));
    }
    ctx.sample(|| json!({"evaluations": a.0.len(), "sample size": cfg.sample, "signal": cfg.signal, "ends with": a.1}));
    Ok(())
}

pub fn best(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Best)
}
pub fn budget(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Budget)
}
pub fn stop(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Stop)
}
pub fn concurrency(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Concurrency)
}
pub fn failure(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Failure)
}
pub fn files(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    embedded(t, ctx, Aspect::Files)
}

/// Many short runs of closures that wait until as many have been started as work conservation
/// demands: what goes wrong in one start of a run in a thousand.
pub fn standstill(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let launches = t.usize(20, 60);
    let nc = *t.pick(&[2, 2, 2, 3, 3, 5, 9]);
    let budget = nc + t.usize(0, 5 * nc);
    let barrier = *t.pick(&[100, 100, 60]);
    let pause = *t.pick(&[0, 0, 0, 200]);
    let in_process = t.chance(9, 10);
    let closure = in_process && t.chance(4, 5);
    let salt = t.below(1 << 32);
    for k in 0..launches {
        let cfg = Cfg { spec: Node::Bool { init: true }, nc, sample: 1, budget: Some(budget), target: None, after_ms: None, salt: mix(salt, k as u64), reject: 0, fail_at: None, barrier, pause, style: 0, in_process, files: false, signal: false, far: None };
        let shared = Arc::new(Shared { calls: Mutex::new(Vec::new()), more: Condvar::new(), cfg: cfg.clone(), stuck: Mutex::new(false) });
        let algo = AlgoConfigBuilder::new().num_concurrent(nc).build().map_err(|e| format!("{}{}", HARNESS, e))?;
        let s2 = shared.clone();
        let res = crate::engine::catch(|| {
            let crit = vec![TerminationCriterion::NumObjFuncEval(budget)];
            if closure {
                sync_launch::launch(Spec(cfg.spec.clone()), make_obj_func(move |v: J| blocking(&s2, v)), algo, crit, None, true, None)
            } else {
                sync_launch::launch_with_async_obj_func(Spec(cfg.spec.clone()), AsyncObj(s2), algo, crit, None, in_process, None)
            }
        });
        let n = shared.calls.lock().unwrap().len();
        if *shared.stuck.lock().unwrap() {
            return Err(format!("run {} of {} with {} at once and a budget of {}: an evaluation waited {:?} in vain for the others to be started", k, launches, nc, budget, STANDSTILL));
        }
        match res {
            Ok(Ok(_)) if n == budget => {}
            other => return Err(format!("run {} of {} with {} at once and a budget of {}: {} evaluations, {:?}", k, launches, nc, budget, n, other)),
        }
    }
    ctx.label(if closure { "closures" } else if in_process { "async, many threads" } else { "async, one thread" });
    ctx.num("runs", launches as u64);
    ctx.nontrivial(&format!("{:?}", (launches, nc, budget, salt)));
    ctx.sample(|| json!({"runs": launches, "at once": nc, "budget": budget, "closures": closure}));
    Ok(())
}
