//! Families about processes, signals and time limits: the real binary with children that hang,
//! fork, fail or finish at scripted points.
use super::c11::same_json;
use super::cliruns::*;
use crate::cli::*;
use crate::engine::{Ctx, HARNESS};
use crate::model::*;
use crate::tape::Tape;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

/// Longer than anything here takes, even on a loaded machine.
const LONG_MS: u64 = 60_000;
/// What a run may need to end once it has been asked to.
const PROMPT_MS: u64 = 20_000;

/// Descendants in the child's own process group that never end by themselves.
fn tree(t: &mut Tape, apart: bool) -> Vec<J> {
    let mut acts = Vec::new();
    for _ in 0..t.usize(1, 2) {
        let mut inner = Vec::new();
        if t.chance(1, 3) {
            inner.push(json!(["ignore", *t.pick(&[15, 2, 1])]));
        }
        if t.chance(1, 4) {
            inner.push(json!(["spawn", [["hang"]], true]));
        }
        if t.chance(1, 6) {
            // a grandchild whose parent is gone
            inner = vec![json!(["spawn", [["ignore", 15], ["hang"]], true])];
            acts.push(json!(["spawn", inner, apart]));
            continue;
        }
        if t.chance(1, 6) {
            inner.push(json!(["sig", 19]));
        }
        inner.push(json!(["hang"]));
        acts.push(json!(["spawn", inner, apart || t.chance(1, 2)]));
    }
    acts
}

/// A child that does not end by itself.
pub fn hanging(t: &mut Tape) -> (Vec<J>, &'static str) {
    match t.below(11) {
        9 => {
            // nothing but SIGKILL and SIGCONT gets through to a stopped process
            let mut a = if t.chance(1, 2) { tree(t, false) } else { Vec::new() };
            if t.chance(1, 3) {
                a.push(json!(["out", "{\"objFuncVal\": -1e9}\n"]));
            }
            a.push(json!(["sig", 19]));
            a.push(json!(["hang"]));
            (a, "is stopped")
        }
        0 => (vec![json!(["hang"])], "hangs"),
        1 => (vec![json!(["ignore", 15]), json!(["ignore", 2]), json!(["ignore", 1]), json!(["hang"])], "ignores signals"),
        2 | 3 => {
            let mut a = tree(t, false);
            a.push(json!(["hang"]));
            (a, "forks and hangs")
        }
        4 => (vec![json!(["close", 1]), json!(["close", 2]), json!(["hang"])], "closes its output and hangs"),
        5 => (vec![json!(["out", "{\"objFuncVal\": "]), json!(["hang"])], "prints half a result and hangs"),
        6 => (vec![json!(["out", "{\"objFuncVal\": -1e9}\n"]), json!(["hang"])], "prints a result and hangs"),
        7 => {
            let mut a = vec![json!(["spawn", [["hang"]], false])];
            a.extend(tree(t, true));
            a.push(json!(["out", "{\"objFuncVal\": -1e9}\n"]));
            (a, "exits while its children hold the output")
        }
        8 => {
            let mut a = vec![json!(["spawn", [["ignore", 15], ["hang"]], false])];
            a.push(json!(["exit", 1]));
            (a, "fails while its children hold the output")
        }
        _ => (vec![json!(["errrep", 120, 300_000]), json!(["outrep", 32, 300_000]), json!(["hang"])], "floods its output and hangs"),
    }
}

/// A child that ends by itself with this result, perhaps leaving descendants behind.
pub fn quick(t: &mut Tape, v: Option<f64>) -> Vec<J> {
    let mut a = Vec::new();
    if t.chance(1, 4) {
        a.extend(tree(t, true));
    }
    if t.chance(1, 3) {
        a.push(json!(["sleep", t.usize(1, 15)]));
    }
    a.push(json!(["out", format!("{{\"objFuncVal\": {}}}", v.map_or("null".into(), |v| format!("{:?}", v)))]));
    a
}

pub fn failing(t: &mut Tape) -> Vec<J> {
    let mut a = Vec::new();
    if t.chance(1, 4) {
        a.extend(tree(t, true));
    }
    match t.below(4) {
        0 => a.extend([json!(["out", "{\"objFuncVal\": 1}"]), json!(["exit", exit_code(t)])]),
        1 => a.push(json!(["sig", *t.pick(&[9, 15, 6, 11])])),
        2 => a.push(json!(["out", *t.pick(&["", "x", "{\"objFuncVal\": 1e999}", "{\"objFuncVal\": NaN}", "{\"objFuncVal\": 1", "[]", "{\"x\": 1}"])])),
        _ => a.extend([json!(["err", "went wrong\n"]), json!(["exit", exit_code(t)])]),
    }
    a
}

fn verdict_value(t: &mut Tape) -> Option<f64> {
    if t.chance(1, 4) {
        None
    } else {
        Some(t.range(-40, 40) as f64 / 4.0)
    }
}

fn plain_plan(t: &mut Tape, tag: &str) -> Result<(Plan, Job), String> {
    let spec = small_spec(t);
    Ok((Plan::new(spec), Job::new(tag)?))
}

/// How the reported value relates to the results that certainly were processed.
fn check_best(r: &Ran, j: &J, results: &[(usize, Option<f64>)]) -> Result<(), String> {
    let min = results.iter().filter_map(|(_, v)| *v).fold(f64::INFINITY, f64::min);
    let ok = results.iter().any(|(i, v)| *v == Some(min) && r.starts.get(*i).and_then(|s| parse_json(&s.arg())).map_or(false, |a| same_json(&a, j)));
    if !ok {
        return r.fail(format!("the reported parameters are not those with the minimum {}", min));
    }
    Ok(())
}

fn ms(ns: u64) -> u64 {
    ns / 1_000_000
}

/// A run that goes on until something ends it: `before` results one by one, while `hang` evaluations
/// are in flight all the time.
struct Line {
    /// Position of the last one in the order of starts.
    last_at: usize,
    order: Vec<J>,
    /// (position in the order of starts, result)
    results: Vec<(usize, Option<f64>)>,
    kinds: Vec<&'static str>,
}

/// The starts are exactly: `nc` at once, then one for each processed result, and of the first `nc`
/// all but one hang; so results come one at a time. `last` is what comes after the `before` results.
fn line(t: &mut Tape, nc: usize, before: &[Option<f64>], last: Vec<J>) -> Line {
    let mut l = Line { last_at: 0, order: Vec::new(), results: Vec::new(), kinds: Vec::new() };
    let first = t.usize(0, nc - 1);
    let mut seq: Vec<Vec<J>> = Vec::new();
    for v in before {
        seq.push(quick(t, *v));
    }
    seq.push(last);
    let mut seq = seq.into_iter();
    for i in 0..nc {
        if i == first {
            let mut acts = vec![json!(["starts", nc])];
            acts.extend(seq.next().unwrap());
            l.order.push(json!(acts));
        } else {
            let (a, k) = hanging(t);
            l.order.push(json!(a));
            l.kinds.push(k);
        }
    }
    l.order.extend(seq.map(|a| json!(a)));
    for (i, v) in before.iter().enumerate() {
        l.results.push((if i == 0 { first } else { nc + i - 1 }, *v));
    }
    l.last_at = if before.is_empty() { first } else { l.order.len() - 1 };
    l
}

impl Line {
    fn total(&self) -> usize {
        self.order.len()
    }
}

// ------------------------------------------------------------ C07: nothing outlives the run

pub fn endings(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "end")?;
    p.nc = *t.pick(&[1, 2, 3, 5, 8]);
    if t.chance(1, 2) {
        p.out = Some("out".into());
    }
    p.verbose = t.chance(1, 6);
    let cause = *t.pick(&["budget", "target", "failure", "interrupt", "time limit", "budget with time limits", "launch failure"]);
    let before: Vec<Option<f64>> = (0..t.usize(0, 4)).map(|_| verdict_value(t)).collect();
    let mut labels: Vec<&'static str> = Vec::new();
    match cause {
        "budget" => {
            let n = t.usize(1, 8);
            p.budget = Some(n);
            let order: Vec<J> = (0..n).map(|_| { let v = verdict_value(t); json!(quick(t, v)) }).collect();
            job.scen = json!({"order": order, "default": [["exit", 77]]});
        }
        "budget with time limits" => {
            let n = t.usize(1, 6);
            p.budget = Some(n);
            p.kill_after = Some(t.pick(&["100ms", "0.15s", "60 ms"]).to_string());
            let order: Vec<J> = (0..n)
                .map(|_| {
                    if t.chance(1, 2) {
                        let (a, k) = hanging(t);
                        labels.push(k);
                        json!(a)
                    } else {
                        let v = verdict_value(t);
                        json!(quick(t, v))
                    }
                })
                .collect();
            job.scen = json!({"order": order, "default": [["exit", 77]]});
        }
        "target" => {
            p.target = Some(-20.0);
            let last = { let v = *t.pick(&[-20.0, -21.5, -1e9]); quick(t, Some(v)) };
            let l = line(t, p.nc, &before, last);
            labels = l.kinds;
            let (a, _) = hanging(t);
            job.scen = json!({"order": l.order, "default": a});
        }
        "failure" => {
            let last = failing(t);
            let l = line(t, p.nc, &before, last);
            labels = l.kinds;
            let (a, _) = hanging(t);
            job.scen = json!({"order": l.order, "default": a});
        }
        "launch failure" => {
            let mut last = vec![json!(["unlink", "prog"])];
            last.extend(quick(t, Some(1.0)));
            let l = line(t, p.nc, &before, last);
            labels = l.kinds;
            std::os::unix::fs::symlink(objfn(), job.file("prog")).map_err(|e| format!("{}{}", HARNESS, e))?;
            job.own(&job.file("prog"))?;
            // the link's directory is the user's
            job.scen = json!({"order": l.order, "default": [["hang"]]});
        }
        _ => {
            let (last, k) = hanging(t);
            let l = line(t, p.nc, &before, last);
            labels = l.kinds.clone();
            labels.push(k);
            if cause == "interrupt" {
                job.sends.push(Send { starts: l.total(), after_ms: t.below(60), sig: libc::SIGINT });
                if t.chance(1, 4) {
                    job.sends.push(Send { starts: l.total(), after_ms: 60 + t.below(40), sig: libc::SIGINT });
                }
            } else {
                let d = t.usize(100, 500);
                p.terminate_after = Some(match t.below(3) {
                    0 => format!("{}ms", d),
                    1 => format!("{} milliseconds", d),
                    _ => format!("0.{:03}s", d),
                });
            }
            job.scen = json!({"order": l.order, "default": [["exit", 77]]});
        }
    }
    if p.kill_after.is_none() && t.chance(1, 4) {
        p.kill_after = Some("90s".into());
    }
    let spec_path = job.put("spec.yaml", to_yaml(&p.spec).as_bytes())?;
    let program = if cause == "launch failure" { "./prog".into() } else { objfn().into_os_string() };
    p.apply_with(t, &mut job, spec_path.into_os_string(), program)?;
    job.deadline_ms = LONG_MS;
    let r = job.run()?;
    let what = |m: String| format!("[ended by {}] {}", cause, m);
    check_ended(&r).map_err(what)?;
    no_survivors(&r).map_err(what)?;
    match cause {
        "failure" | "launch failure" => check_failure(&r).map_err(what)?,
        "target" => {
            check_success(&r, &p.spec).map_err(what)?;
        }
        _ => {
            if r.code == Some(0) {
                check_success(&r, &p.spec).map_err(what)?;
            } else {
                check_failure(&r).map_err(what)?;
            }
        }
    }
    ctx.label(cause);
    for k in &labels {
        ctx.label(*k);
    }
    let left = r.starts.iter().filter(|s| s.end.is_none()).count();
    ctx.num("evaluations alive at the end", left as u64);
    if left > 0 || job.scen.to_string().contains("spawn") {
        ctx.nontrivial(&format!("{}{}{}", cause, p.nc, job.scen));
    }
    ctx.sample(|| json!({"ended by": cause, "command": cut(&r.cmdline, 300), "children": cut(&job.scen.to_string(), 400), "evaluations": r.starts.len(), "alive when it ended": left, "exit": r.code}));
    Ok(())
}

// ------------------------------------------------------------ C07: per-evaluation time limits

fn rows_of(r: &Ran, job: &Job) -> Result<Vec<Row>, String> {
    match read(&job.file("out").join("detailed_report.csv")) {
        Some(b) => csv_rows(&b).or_else(|m| r.fail(m)),
        None => r.fail("there is no detailed report"),
    }
}

/// Limits that nothing comes near to, but that look small when cut to fewer bits.
pub const FAR: &[&str] = &[
    "4294967.346s",
    "4294967346 ms",
    "4294967296000 us",
    "4294967296s",
    "4294967297 s",
    "9223372036854776s",
    "18446744073709552s",
    "18446744073.71s",
    "9223372037s",
    "2147483.7s",
    "50 days",
    "100 weeks",
    "1 year",
    "1000000 years",
    "584542046090 years",
    "18446744073709551615 s",
];

pub fn timeouts(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "limit")?;
    p.nc = *t.pick(&[1, 1, 2, 3, 6]);
    p.out = Some("out".into());
    let n = t.usize(1, 7);
    p.budget = Some(n);
    // short: only what hangs is judged; long: everything is in time; medium: both kinds
    let mode = t.weighted(&[4, 3, 2, 2]);
    let (limit_ms, text): (u64, &str) = match mode {
        0 => *t.pick(&[(100, "100ms"), (60, "60ms"), (150, "0.15 s"), (30, "30 milliseconds")]),
        1 if t.chance(1, 2) => (2_000_000_000, *t.pick(FAR)),
        1 => *t.pick(&[(40_000, "40s"), (60_000, "1 min"), (3_600_000, "1h"), (86_400_000, "1 day")]),
        2 => *t.pick(&[(1500, "1.5s"), (1200, "1200ms")]),
        _ => *t.pick(&[(900, "900ms"), (1100, "1.1s")]),
    };
    p.kill_after = Some(text.into());
    let mut order = Vec::new();
    // Some(result) or None for one that hangs
    let mut plan: Vec<Option<Option<f64>>> = Vec::new();
    let mut kinds = BTreeSet::new();
    for _ in 0..n {
        if mode != 1 && mode != 3 && t.chance(1, 2) {
            let (a, k) = hanging(t);
            kinds.insert(k);
            order.push(json!(a));
            plan.push(None);
        } else if mode != 1 && mode != 3 && t.chance(1, 10) {
            // would end by itself long after its time
            kinds.insert("would end by itself too late");
            let mut a = quick(t, Some(-1e9));
            a.insert(0, json!(["sleep", limit_ms + *t.pick(&[840, 1500, 2500])]));
            order.push(json!(a));
            plan.push(None);
        } else {
            let v = verdict_value(t);
            let mut a = quick(t, v);
            match mode {
                1 if t.chance(1, 2) => a.insert(0, json!(["sleep", t.usize(1, 250)])),
                2 if t.chance(1, 3) => a.insert(0, json!(["sleep", limit_ms / 2])),
                3 => a.insert(0, json!(["sleep", t.usize(1, 100)])),
                _ => {}
            }
            order.push(json!(a));
            plan.push(Some(v));
        }
    }
    if mode == 3 {
        // The tool is stopped until the time limit has passed, the children are not: they finish in time.
        p.nc = p.nc.min(3);
        job.sends.push(Send { starts: 1, after_ms: 0, sig: libc::SIGSTOP });
        job.sends.push(Send { starts: 1, after_ms: limit_ms + 200 + t.below(300), sig: libc::SIGCONT });
    }
    job.scen = json!({"order": order, "default": [["exit", 77]]});
    p.apply(t, &mut job)?;
    job.deadline_ms = LONG_MS;
    let r = job.run()?;
    check_ended(&r)?;
    no_survivors(&r)?;
    let by_seed = started(&r)?;
    if r.starts.len() > n {
        return r.fail(format!("{} evaluations with a budget of {}", r.starts.len(), n));
    }
    let rows = rows_of(&r, &job)?;
    if rows.len() != n {
        return r.fail(format!("{} of {} evaluations are recorded: a timeout must not end the run", rows.len(), n));
    }
    // lower bounds of the times at which evaluations were started
    let mut free: Vec<u64> = r.starts.iter().map(|s| s.end.unwrap_or(s.t + limit_ms * 1_000_000)).collect();
    free.sort();
    let mut judged = 0;
    for row in &rows {
        let Some(s) = by_seed.get(&row.seed) else {
            // one killed before it could say that it was there
            if row.obj.is_some() || mode == 1 {
                return r.fail(format!("a record with seed {} with a result, which was never started", row.seed));
            }
            continue;
        };
        match plan[s.index] {
            None => {
                if row.obj.is_some() {
                    return r.fail(format!("the evaluation with seed {} did not end in time and is recorded with {:?}", row.seed, row.obj));
                }
                judged += 1;
            }
            Some(v) => {
                let lower = if s.index < p.nc { r.t0 } else { free[s.index - p.nc] };
                let in_time = match (s.end, mode) {
                    (_, 1) => true,
                    (Some(e), 3) => s.index == 0 && ms(e.saturating_sub(s.t)) < limit_ms / 2 && ms(e.saturating_sub(r.t0)) + 300 < limit_ms,
                    (Some(e), _) => ms(e.saturating_sub(lower)) + 500 < limit_ms,
                    (None, _) => false,
                };
                if in_time {
                    judged += 1;
                    if row.obj != v {
                        return r.fail(format!("the evaluation with seed {} finished in time with {:?} and is recorded with {:?}", row.seed, v, row.obj));
                    }
                } else if row.obj.is_some() && row.obj != v {
                    return r.fail(format!("the evaluation with seed {} returned {:?} and is recorded with {:?}", row.seed, v, row.obj));
                }
            }
        }
    }
    let accepted = rows.iter().filter(|x| x.obj.is_some()).count();
    if accepted > 0 {
        check_success(&r, &p.spec)?;
        match read(&job.file("out").join("summary_report.txt")).map(|b| summary(&b)) {
            Some(Ok(s)) if (s.completed, s.rejected) == (accepted, n - accepted) => {}
            _ => return r.fail("the summary does not count the killed evaluations as rejected"),
        }
    } else {
        check_failure(&r)?;
    }
    // nothing is killed before its time: the run cannot end earlier than a hanging evaluation's limit
    if mode != 3 {
        let hung = rows.iter().filter(|x| by_seed.get(&x.seed).map_or(false, |s| plan[s.index].is_none())).count() as u64;
        let least = hung.div_ceil(p.nc as u64) * limit_ms;
        if hung > 0 && ms(r.t_exit - r.t0) + 5 < least {
            return r.fail(format!("{} hanging evaluations with a limit of {} ms are gone too early", hung, limit_ms));
        }
    }
    ctx.label(["short limit", "long limit", "medium limit", "noticed late"][mode]);
    kinds.iter().for_each(|k| ctx.label(*k));
    ctx.num("judged", judged);
    if judged > 0 {
        ctx.nontrivial(&format!("{}{}", text, job.scen));
    }
    ctx.sample(|| json!({"limit": text, "command": cut(&r.cmdline, 300), "children": cut(&job.scen.to_string(), 400), "recorded": rows.iter().map(|x| x.obj).collect::<Vec<_>>(), "exit": r.code}));
    Ok(())
}

// ------------------------------------------------------------ C04: interrupts, time limits, target

pub fn stops(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "stop")?;
    p.nc = *t.pick(&[1, 2, 3, 4, 7]);
    let how = *t.pick(&["interrupt", "target", "time limit", "interrupt while busy", "time limit while busy", "interrupt together with results"]);
    let before: Vec<Option<f64>> = (0..t.usize(0, 6)).map(|_| verdict_value(t)).collect();
    if t.chance(1, 2) {
        p.out = Some("out".into());
    }
    if t.chance(1, 3) {
        p.budget = Some(*t.pick(&[1000, (1 << 32) + 2, usize::MAX]));
    }
    let (rest, _) = hanging(t);
    let mut exact: Option<usize> = None;
    let mut results = Vec::new();
    let mut limit = None;
    match how {
        "interrupt" | "target" | "time limit" => {
            let l = if how == "target" {
                p.target = Some(-50.0);
                let last = { let v = *t.pick(&[-50.0, -50.5, -1e12]); quick(t, Some(v)) };
                line(t, p.nc, &before, last)
            } else {
                let (last, _) = hanging(t);
                line(t, p.nc, &before, last)
            };
            results = l.results.clone();
            exact = Some(l.total());
            if how == "interrupt" {
                job.sends.push(Send { starts: l.total(), after_ms: t.below(40), sig: libc::SIGINT });
            }
            if how == "target" {
                results.push((l.last_at, Some(f64::MIN)));
            }
            if how == "time limit" {
                // long enough for the results before; if not, the run is not judged by them
                limit = Some(1000 + 100 * t.below(3));
            }
            job.scen = json!({"order": l.order, "default": rest});
        }
        _ => {
            // children come and go
            let kind = *t.pick(KINDS);
            let mut acts = vec![json!(["sleep", t.usize(1, 12)]), json!(["value", kind])];
            if t.chance(1, 3) {
                acts.insert(0, tree(t, true).remove(0));
            }
            let mut order: Vec<J> = Vec::new();
            for _ in 0..t.usize(0, p.nc - 1) {
                order.push(json!(hanging(t).0));
            }
            job.scen = json!({"order": order, "default": acts});
            match how {
                "interrupt while busy" => job.sends.push(Send { starts: t.usize(1, 30), after_ms: t.below(25), sig: libc::SIGINT }),
                "interrupt together with results" => {
                    let k = t.usize(1, 20);
                    job.sends.push(Send { starts: k, after_ms: 0, sig: libc::SIGSTOP });
                    job.sends.push(Send { starts: k, after_ms: t.below(60), sig: libc::SIGINT });
                    job.sends.push(Send { starts: k, after_ms: 60 + t.below(60), sig: libc::SIGCONT });
                }
                _ => limit = Some(if t.chance(1, 4) { *t.pick(&[0, 0, 1, 20]) } else { 100 + 50 * t.below(6) }),
            }
        }
    }
    // further criteria that do not apply
    match limit {
        Some(d) => p.terminate_after = Some(format!("{}ms", d)),
        None if t.chance(1, 3) => p.terminate_after = Some(if t.chance(1, 3) { t.pick(FAR).to_string() } else { "3000s".into() }),
        None => {}
    }
    if p.target.is_none() && t.chance(1, 4) {
        p.target = Some(-1.5e308);
    }
    if t.chance(1, 4) {
        p.kill_after = Some("3000s".into());
    }
    p.apply(t, &mut job)?;
    job.deadline_ms = LONG_MS;
    let r = job.run()?;
    let what = |m: String| format!("[{}] {}", how, m);
    check_ended(&r).map_err(what)?;
    let by_seed = started(&r)?;
    // when it was asked to stop
    let asked = match limit {
        Some(d) => r.t0 + d * 1_000_000,
        None if how == "target" => r.starts.iter().filter_map(|s| s.end).max().unwrap_or(r.t0),
        None => r.sent.iter().copied().max().unwrap_or(r.t_exit),
    };
    if let Some(d) = limit {
        if r.t_exit < asked {
            return r.fail(what(format!("the run ends before its time limit of {} ms", d)));
        }
    }
    if r.t_exit > asked + PROMPT_MS * 1_000_000 {
        return r.fail(what("the run goes on long after it was asked to stop".into()));
    }
    if let Some(s) = r.starts.iter().find(|s| s.t > asked + 1_500_000_000) {
        return r.fail(what(format!("seed {} is started {} ms after the run was asked to stop", s.seed, ms(s.t - asked))));
    }
    let fits = exact.map_or(false, |n| how != "time limit" || r.starts.len() == n && r.starts.iter().all(|s| ms(s.t - r.t0) < 800));
    if let (Some(n), true) = (exact, fits) {
        if r.starts.len() > n {
            return r.fail(what(format!("{} evaluations were started instead of {}", r.starts.len(), n)));
        }
        let all_results: Vec<(usize, Option<f64>)> = results.clone();
        if all_results.iter().any(|(_, v)| v.is_some()) {
            let j = check_success(&r, &p.spec).map_err(what)?;
            check_best(&r, &j, &all_results).map_err(what)?;
        } else {
            check_failure(&r).map_err(what)?;
        }
    } else if exact.is_none() || how == "time limit" {
        if r.code == Some(0) {
            check_success(&r, &p.spec).map_err(what)?;
        } else {
            check_failure(&r).map_err(what)?;
        }
    }
    if p.out.is_some() {
        let rows = rows_of(&r, &job).map_err(what)?;
        let accepted = rows.iter().filter(|x| x.obj.is_some()).count();
        let seen: BTreeSet<&String> = rows.iter().map(|x| &x.seed).collect();
        if seen.len() != rows.len() {
            return r.fail(what("an evaluation is recorded twice".into()));
        }
        if rows.iter().any(|x| x.obj.is_some() && !by_seed.contains_key(&x.seed)) {
            return r.fail(what("a result is recorded for an evaluation that was not started".into()));
        }
        if (accepted > 0) != (r.code == Some(0)) {
            return r.fail(what(format!("{} accepted results are recorded, but the exit code is {:?}", accepted, r.code)));
        }
        check_best_file(read(&job.file("out").join("best_seen.json")), &rows).or_else(|m| r.fail(what(m)))?;
        if accepted > 0 {
            let min = rows.iter().filter_map(|x| x.obj).fold(f64::INFINITY, f64::min);
            let j = check_success(&r, &p.spec)?;
            if !rows.iter().any(|x| x.obj == Some(min) && same_json(&x.input, &j)) {
                return r.fail(what(format!("the reported parameters have no record with the minimum {}", min)));
            }
        }
    }
    ctx.label(how);
    let alive = r.starts.iter().filter(|s| s.end.is_none()).count();
    ctx.num("evaluations alive at the end", alive as u64);
    if how != "target" || alive > 0 {
        ctx.nontrivial(&format!("{}{}{}", how, p.nc, job.scen));
    }
    ctx.sample(|| json!({"stopped by": how, "command": cut(&r.cmdline, 300), "evaluations": r.starts.len(), "in flight at the end": alive, "exit": r.code, "ms": ms(r.t_exit - r.t0)}));
    Ok(())
}

// ------------------------------------------------------------ C05: how many at a time

pub fn overlap(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "conc")?;
    p.nc = t.usize(1, 9);
    let many = t.chance(1, 6);
    let n = if many { t.usize(45, 70) } else { t.usize(1, 16) };
    p.budget = Some(n);
    p.sample = if many { t.usize(2, 4) } else { 1 };
    p.out = Some("out".into());
    // A child ends once so many are started as must have been if every finished one is replaced.
    let mut order = Vec::new();
    let mut waits = 0;
    for i in 0..n {
        let mut a = Vec::new();
        if t.chance(2, 3) {
            a.push(json!(["starts", n.min(i + p.nc)]));
            waits += 1;
        }
        if t.chance(1, 3) {
            a.push(json!(["sleep", t.usize(1, 10)]));
        }
        let v = verdict_value(t);
        a.extend(quick(t, v));
        order.push(json!(a));
    }
    job.scen = json!({"order": order, "default": [["exit", 77]]});
    p.apply(t, &mut job)?;
    job.deadline_ms = LONG_MS;
    let r = job.run()?;
    if r.timed_out {
        return r.fail(format!("finished evaluations are not replaced at once: the run stands still with {} of {} started at concurrency {}", r.starts.len(), n, p.nc));
    }
    check_ended(&r)?;
    started(&r)?;
    if r.starts.len() != n {
        return r.fail(format!("{} evaluations were started instead of {}", r.starts.len(), n));
    }
    let mut events: Vec<(u64, i32, usize)> = Vec::new();
    for s in &r.starts {
        events.push((s.t, 1, s.index));
        if let Some(e) = s.end {
            events.push((e, -1, s.index));
        }
    }
    events.sort();
    let rows = rows_of(&r, &job)?;
    let id: BTreeMap<&String, u64> = rows.iter().map(|x| (&x.seed, x.id)).collect();
    let mut now: BTreeSet<usize> = BTreeSet::new();
    let mut most = 0;
    for (_, d, i) in events {
        if d < 0 {
            now.remove(&i);
            continue;
        }
        if let (Some(mine), true) = (id.get(&r.starts[i].seed), true) {
            if now.iter().any(|k| id.get(&r.starts[*k].seed) == Some(mine)) {
                return r.fail(format!("individual {} is being evaluated twice at the same time", mine));
            }
        }
        now.insert(i);
        most = most.max(now.len());
    }
    if most > p.nc {
        return r.fail(format!("{} evaluations are in progress at once with num-concurrent {}", most, p.nc));
    }
    ctx.label(if many { "re-evaluations" } else { "short" });
    ctx.num("starts", n as u64);
    if p.nc > 1 && n > 1 && waits > 0 {
        ctx.nontrivial(&format!("{}{}{}", p.nc, p.sample, job.scen));
    }
    ctx.sample(|| json!({"num_concurrent": p.nc, "budget": n, "sample size": p.sample, "most at once": most, "barriers": waits}));
    Ok(())
}

// ------------------------------------------------------------ C06: failing children

pub fn failures(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "fail")?;
    p.nc = *t.pick(&[1, 2, 3, 5]);
    p.out = Some("out".into());
    p.verbose = t.chance(1, 6);
    let before: Vec<Option<f64>> = (0..t.usize(0, 5)).map(|_| verdict_value(t)).collect();
    let together = p.nc > 1 && t.chance(1, 3);
    let launch = !together && t.chance(1, 5);
    if t.chance(1, 3) {
        p.target = Some(-100.0);
    }
    let mut failing_at = BTreeSet::new();
    let program;
    let mut exact = None;
    if together {
        // several end at the same time, at least one of them failing
        let at = t.usize(0, p.nc - 1);
        let mut order = Vec::new();
        for i in 0..p.nc {
            let mut a = vec![json!(["starts", p.nc]), json!(["sleep", 40])];
            if i == at || t.chance(1, 3) {
                a.extend(failing(t));
                failing_at.insert(i);
            } else {
                let v = if t.chance(1, 4) { p.target } else { verdict_value(t) };
                a.extend(quick(t, v));
            }
            order.push(json!(a));
        }
        if t.chance(1, 2) {
            job.sends.push(Send { starts: p.nc, after_ms: 0, sig: libc::SIGSTOP });
            job.sends.push(Send { starts: p.nc, after_ms: 120, sig: libc::SIGCONT });
        }
        job.scen = json!({"order": order, "default": [["sleep", 3000], ["value", "hash"]]});
        program = objfn().into_os_string();
    } else {
        let last = if launch {
            let mut a = vec![json!(["unlink", "prog"])];
            a.extend(quick(t, Some(1.0)));
            a
        } else {
            failing(t)
        };
        let l = line(t, p.nc, &before, last);
        if !launch {
            failing_at.insert(l.last_at);
        }
        exact = Some(l.total());
        job.scen = json!({"order": l.order, "default": [["hang"]]});
        program = if launch {
            std::os::unix::fs::symlink(objfn(), job.file("prog")).map_err(|e| format!("{}{}", HARNESS, e))?;
            "./prog".into()
        } else {
            objfn().into_os_string()
        };
    }
    let spec_path = job.put("spec.yaml", to_yaml(&p.spec).as_bytes())?;
    p.apply_with(t, &mut job, spec_path.into_os_string(), program)?;
    job.deadline_ms = LONG_MS;
    let r = job.run()?;
    check_ended(&r)?;
    let by_seed = started(&r)?;
    let target_too = together && job.scen.to_string().contains("-100.0");
    if r.code == Some(0) && target_too {
        // the target came first
        check_success(&r, &p.spec)?;
        ctx.label("target first");
        return Ok(());
    }
    check_failure(&r)?;
    if let Some(n) = exact {
        if r.starts.len() > n {
            return r.fail(format!("{} evaluations were started instead of {}", r.starts.len(), n));
        }
    }
    let failed_by = r.starts.iter().filter(|s| failing_at.contains(&s.index)).filter_map(|s| s.end).max().or(r.starts.iter().filter_map(|s| s.end).max()).unwrap_or(r.t0);
    let failed_by = failed_by.max(r.sent.iter().copied().max().unwrap_or(0));
    if r.t_exit > failed_by + PROMPT_MS * 1_000_000 {
        return r.fail("the run goes on long after the failure");
    }
    if let Some(s) = r.starts.iter().find(|s| s.t > failed_by + 1_500_000_000) {
        return r.fail(format!("seed {} is started {} ms after the failure", s.seed, ms(s.t - failed_by)));
    }
    let out = job.file("out");
    if read(&out.join("summary_report.txt")).is_some() {
        return r.fail("a summary is written although the run failed");
    }
    let dump = read(&out.join("failed_obj_func_arg"));
    if launch {
        if dump.is_some() {
            return r.fail("arguments of a failed evaluation are dumped, but the program could not be started");
        }
    } else {
        let text = String::from_utf8_lossy(&dump.unwrap_or_default()).trim_end().to_string();
        let seed = text.rsplit(' ').next().unwrap_or("").to_string();
        match by_seed.get(&seed) {
            Some(s) if failing_at.contains(&s.index) => {
                let want: Vec<u8> = job.scen["order"][s.index].as_array().into_iter().flatten().filter(|a| a[0] == json!("err")).flat_map(|a| bytes(a[1].as_str().unwrap_or(""))).collect();
                if read(&out.join("failed_obj_func_stderr")) != Some(want) {
                    return r.fail("the dumped error output is not that of the failed evaluation");
                }
            }
            _ => return r.fail(format!("the reported failure is that of {:?}, which did not fail", text)),
        }
    }
    let rows = rows_of(&r, &job)?;
    if rows.iter().any(|x| by_seed.get(&x.seed).map_or(false, |s| failing_at.contains(&s.index) && x.obj.is_some())) {
        return r.fail("a failed evaluation is recorded with a result");
    }
    check_best_file(read(&out.join("best_seen.json")), &rows).or_else(|m| r.fail(m))?;
    if let Some(s) = r.starts.iter().find(|s| r.survivors.iter().any(|x| x.starts_with(&format!("pid {} ", s.pid)))) {
        return r.fail(format!("the run returns although the evaluation with seed {} has not ended", s.seed));
    }
    ctx.label(if launch { "cannot be started any more" } else if together { "several at once" } else { "one by one" });
    ctx.nontrivial(&format!("{}{}", p.nc, job.scen));
    ctx.sample(|| json!({"command": cut(&r.cmdline, 300), "failing starts": failing_at, "evaluations": r.starts.len(), "stderr": cut(&String::from_utf8_lossy(&r.stderr), 300)}));
    Ok(())
}

// ------------------------------------------------------------ C15: arbitrary output

fn junk(t: &mut Tape) -> Vec<u8> {
    match t.below(8) {
        0 => Vec::new(),
        1 => (0..t.usize(1, 200)).map(|_| t.below(256) as u8).collect(),
        2 => vec![t.below(256) as u8; t.usize(1, 300_000)],
        3 => "{\"objFuncVal\": 3".repeat(t.usize(1, 2000)).into_bytes(),
        4 => "[".repeat(t.usize(1, 100_000)).into_bytes(),
        5 => "{\"objFuncVal\":".repeat(t.usize(1, 20_000)).into_bytes(),
        6 => {
            let mut b = b"{\"objFuncVal\": 1".to_vec();
            b.extend(vec![b'0'; t.usize(1, 4000)]);
            b.push(b'}');
            b
        }
        _ => {
            let mut b = "é日\u{1F600}".repeat(t.usize(1, 50)).into_bytes();
            let n = t.usize(0, b.len());
            b.truncate(n);
            b
        }
    }
}

fn without_time(csv: Option<Vec<u8>>) -> Option<String> {
    csv.map(|b| {
        String::from_utf8_lossy(&b)
            .lines()
            .map(|l| l.split(';').enumerate().filter(|(i, _)| *i != 1).map(|(_, f)| f.to_string()).collect::<Vec<_>>().join(";"))
            .collect::<Vec<_>>()
            .join("\n")
    })
}

pub fn child_bytes(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let (mut p, mut job) = plain_plan(t, "bytes")?;
    let n = t.usize(1, 6);
    p.budget = Some(n);
    p.out = Some("out".into());
    let mut order = Vec::new();
    let mut labels = BTreeSet::new();
    for i in 0..n {
        // most survive, so that later ones are reached
        let kind = if i + 1 < n && t.chance(4, 5) { 0 } else { t.below(3) as usize };
        let kind = if kind == 0 && t.chance(1, 4) { 1 } else { kind };
        let mut b = behaviour(t, kind);
        let err = junk(t);
        if t.chance(2, 3) && !err.is_empty() {
            let at = t.usize(0, 1);
            let acts = if err.len() > 5000 { json!(["errrep", err[0], err.len()]) } else { json!(["err", latin1(&err)]) };
            b.acts.insert(at, acts);
            labels.insert("stderr");
        }
        if kind == 2 && t.chance(2, 3) {
            let out = junk(t);
            b.acts.retain(|a| a[0] != json!("out"));
            b.acts.insert(0, if out.len() > 5000 && out.iter().all(|c| *c == out[0]) { json!(["outrep", out[0], out.len()]) } else { json!(["out", latin1(&out)]) });
            labels.insert("stdout");
        }
        if t.chance(1, 6) {
            b.acts.insert(0, json!(["close", *t.pick(&[1, 2])]));
            labels.insert("closed");
        }
        order.push(json!(b.acts));
    }
    job.scen = json!({"order": order, "default": [["value", "hash"]]});
    let spec_path = job.put("spec.yaml", to_yaml(&p.spec).as_bytes())?;
    job.deadline_ms = LONG_MS;
    let mut seen = Vec::new();
    for verbose in [false, true] {
        p.verbose = verbose;
        p.apply_with(&mut Tape::replay(Vec::new()), &mut job, spec_path.clone().into_os_string(), objfn().into_os_string())?;
        let out = job.file("out");
        std::fs::remove_dir_all(&out).ok();
        let r = job.run()?;
        check_ended(&r)?;
        if r.code == Some(0) {
            check_success(&r, &p.spec)?;
        } else {
            check_failure(&r)?;
        }
        let mut files = BTreeMap::new();
        for e in std::fs::read_dir(&out).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            let b = read(&e.path()).unwrap_or_default();
            let b = match name.as_str() {
                "detailed_report.csv" => without_time(Some(b)).unwrap_or_default(),
                // the summary has the time taken
                "summary_report.txt" => String::from_utf8_lossy(&b).lines().filter(|l| !l.to_lowercase().contains("time")).collect::<Vec<_>>().join("\n"),
                _ => latin1(&b),
            };
            files.insert(name, b);
        }
        seen.push((r.code, r.stdout.clone(), r.starts.iter().map(|s| (s.argv.clone(), s.seed.clone())).collect::<Vec<_>>(), files, r));
    }
    let r = &seen[1].4;
    if seen[0].0 != seen[1].0 || seen[0].1 != seen[1].1 {
        return r.fail(format!("with --verbose the run ends differently: {:?} {:?} instead of {:?} {:?}", seen[1].0, latin1(&seen[1].1), seen[0].0, latin1(&seen[0].1)));
    }
    if seen[0].2 != seen[1].2 {
        return r.fail("with --verbose other evaluations are made");
    }
    if seen[0].3 != seen[1].3 {
        let d: Vec<&String> = seen[0].3.keys().chain(seen[1].3.keys()).filter(|k| seen[0].3.get(*k) != seen[1].3.get(*k)).collect();
        return r.fail(format!("with --verbose other files are written: {:?} differ", d));
    }
    labels.iter().for_each(|l| ctx.label(*l));
    ctx.label(if r.code == Some(0) { "success" } else { "error" });
    ctx.num("starts", r.starts.len() as u64);
    ctx.nontrivial(&job.scen.to_string());
    ctx.sample(|| json!({"children": cut(&job.scen.to_string(), 500), "exit": r.code, "evaluations": r.starts.len()}));
    Ok(())
}

// ------------------------------------------------------------ C09: twice the same

pub fn twice(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let spec = small_spec(t);
    let mut p = Plan::new(spec);
    let n = if t.chance(1, 40) { t.usize(300, 420) } else if t.chance(1, 4) { t.usize(40, 90) } else { t.usize(1, 25) };
    p.budget = Some(n);
    p.nc = *t.pick(&[1, 1, 1, 2, 3]);
    p.sample = *t.pick(&[1, 1, 2, 3]);
    p.out = Some("out".into());
    // at concurrency > 1 results come in an order that the seeds determine; without ties
    let kind = if p.nc > 1 { "fine" } else { *t.pick(&["hash", "sphere", "byseed", "large", "coarse"]) };
    let mut acts = vec![json!(["value", kind])];
    if p.nc > 1 {
        acts.insert(0, json!(["turn", n, p.nc]));
    }
    // evaluations that take longer the second time
    let slow = if n <= 25 && t.chance(1, 3) { *t.pick(&[15, 50, 120]) } else { 0 };
    let mut seen = Vec::new();
    for k in 0..2 {
        let mut job = Job::new("twice")?;
        if k == 1 && slow > 0 {
            acts.insert(0, json!(["sleep", slow]));
            ctx.label("slower the second time");
        }
        job.scen = json!({"default": acts});
        p.verbose = k == 1;
        if k == 1 {
            job.around = surroundings(t);
        }
        p.apply(t, &mut job)?;
        job.deadline_ms = LONG_MS;
        let r = job.run()?;
        check_ended(&r)?;
        let calls: Vec<Vec<Vec<u8>>> = r.starts.iter().map(|s| s.argv[s.argv.len() - 2..].to_vec()).collect();
        let csv = without_time(read(&job.file("out").join("detailed_report.csv"))).unwrap_or_default();
        let mut lines: Vec<String> = csv.lines().map(String::from).collect();
        if p.nc > 1 {
            // the last results may have come in another order
            let keep = lines.len().saturating_sub(p.nc);
            lines[keep..].sort();
        }
        seen.push((calls, r.code, r.stdout.clone(), lines, r));
    }
    let r = &seen[1].4;
    if p.nc == 1 && seen[0].0 != seen[1].0 {
        let at = seen[0].0.iter().zip(&seen[1].0).take_while(|(a, b)| a == b).count();
        return r.fail(format!("the second run evaluates something else from evaluation {} on", at));
    }
    if p.nc > 1 {
        // children log their starts themselves: order by seed
        let by_seed = |c: &Vec<Vec<Vec<u8>>>| c.iter().map(|v| (v[1].clone(), v[0].clone())).collect::<BTreeMap<_, _>>();
        if by_seed(&seen[0].0) != by_seed(&seen[1].0) {
            return r.fail("the second run evaluates something else");
        }
    }
    if (seen[0].1, &seen[0].2) != (seen[1].1, &seen[1].2) {
        return r.fail(format!("the second run ends differently: {:?} {:?} instead of {:?} {:?}", seen[1].1, latin1(&seen[1].2), seen[0].1, latin1(&seen[0].2)));
    }
    if seen[0].3 != seen[1].3 {
        let d = seen[0].3.iter().zip(&seen[1].3).find(|(a, b)| a != b);
        return r.fail(format!("the detailed reports of two equal runs differ: {:?}", d));
    }
    ctx.label(format!("concurrency {}", p.nc));
    ctx.num("starts", n as u64);
    if n > 1 {
        ctx.nontrivial(&format!("{}{}{}{}{}", to_yaml(&p.spec), n, p.nc, p.sample, kind));
    }
    ctx.sample(|| json!({"spec": cut(&to_yaml(&p.spec), 200), "budget": n, "num_concurrent": p.nc, "sample size": p.sample, "objective": kind, "exit": r.code}));
    Ok(())
}

// ------------------------------------------------------------ C11: the guess option

/// Known finding float-text of C11: the reader may be off by an ulp.
fn reads_exactly(text: &str) -> bool {
    match (parse_json(text), serde_json::from_str::<J>(text)) {
        (Some(a), Ok(b)) => same_json(&a, &b),
        _ => false,
    }
}

pub fn chained(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let spec = small_spec(t);
    let mut p = Plan::new(spec);
    let n = t.usize(1, 12);
    p.budget = Some(n);
    let kind = *t.pick(&["hash", "sphere", "coarse", "large"]);
    let mut job = Job::new("guess")?;
    job.deadline_ms = LONG_MS;
    job.scen = json!({"default": [["value", kind]]});
    p.apply(t, &mut job)?;
    let a = job.run()?;
    let best = check_success(&a, &p.spec)?;
    let line = String::from_utf8_lossy(&a.stdout).trim_end().to_string();
    let init = a.starts[0].arg();
    // the own initial value changes nothing
    p.guess = Some(init.clone());
    p.apply(t, &mut job)?;
    if reads_exactly(&init) {
        let b = job.run()?;
        if b.code != Some(0) || b.stdout != a.stdout {
            return b.fail(format!("with the spec's own initial value {} as the guess the run ends differently", init));
        }
        let calls = |r: &Ran| r.starts.iter().map(|s| (s.arg(), s.seed.clone())).collect::<Vec<_>>();
        if calls(&a) != calls(&b) {
            return b.fail(format!("with the spec's own initial value {} as the guess other evaluations are made", init));
        }
    }
    // the reported value seeds the next run
    p.guess = Some(line.clone());
    p.apply(t, &mut job)?;
    if reads_exactly(&line) {
        let c = job.run()?;
        check_success(&c, &p.spec).map_err(|m| format!("with a reported value as the guess: {}", m))?;
        if c.starts[0].arg() != line {
            return c.fail(format!("the run with guess {} starts with {}", line, c.starts[0].arg()));
        }
        ctx.label(if line == init { "initial value was best" } else { "other value was best" });
        if line != init {
            ctx.nontrivial(&format!("{}{}", to_yaml(&p.spec), best));
        }
    } else {
        ctx.label("float text read inexactly: skipped");
    }
    ctx.num("runs", 3);
    ctx.sample(|| json!({"spec": cut(&to_yaml(&p.spec), 200), "initial": init, "reported": line}));
    Ok(())
}
