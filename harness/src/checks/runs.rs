//! Run-level families of C01-C06, C08, C09, C14 and C15.

use crate::drive::*;
use crate::engine::{Ctx, Family};
use crate::model::*;
use crate::oracle;
use crate::tape::Tape;
use cambrian::spec::Node;

pub fn tiny_spec(t: &mut Tape) -> Node {
    let real = |init: f64| Node::Real { init, scale: 1.0, min: None, max: None };
    match t.weighted(&[3, 3, 2, 2, 2]) {
        0 => real(0.0),
        1 => Node::Int { init: 0, scale: 1.0, min: Some(-5), max: Some(5) },
        2 => Node::Sub {
            map: [
                ("a".to_string(), Box::new(real(1.0))),
                ("b".to_string(), Box::new(Node::Bool { init: false })),
            ]
            .into_iter()
            .collect(),
        },
        3 => Node::AnonMap { value_type: Box::new(Node::Bool { init: false }), init_size: 2, min_size: None, max_size: Some(6) },
        _ => {
            let cfg = GenCfg { max_depth: 2, size: 6, weird_names: false, extremes: false, dup_enum: false };
            gen_spec(t, &cfg)
        }
    }
}

pub fn gen_nc(t: &mut Tape) -> usize {
    match t.weighted(&[60, 120, 60, 20, 3]) {
        0 => 1,
        1 => t.usize(2, 4),
        2 => t.usize(5, 12),
        3 => t.usize(13, 60),
        _ => t.usize(61, 300),
    }
}

pub fn gen_sample(t: &mut Tape) -> usize {
    *t.pick(&[1, 1, 1, 1, 2, 2, 3, 5])
}

/// Runs in which large samples are completed.
pub fn large_samples(t: &mut Tape, c: &mut Cfg) {
    c.sample = t.usize(6, 40);
    c.nc = t.usize(1, 5);
    c.budget = Some(t.usize(150, 500));
    c.cap = 1000;
    c.p_reject = *t.pick(&[0, 0, 100]);
    c.p_immediate = 600;
}

/// A target right beside a value that is returned.
pub fn beside(t: &mut Tape, v: f64) -> f64 {
    match t.below(6) {
        0 => v.next_up(),
        1 => v.next_down(),
        2 => v.next_up().next_up(),
        3 => v.next_down().next_down(),
        _ => v,
    }
}

pub fn gen_budget(t: &mut Tape, nc: usize) -> Option<usize> {
    match t.weighted(&[9, 6, 9, 15, 3, 1]) {
        0 => None,
        1 => Some(t.usize(0, 2)),
        2 => Some(t.usize(nc.saturating_sub(1), nc + 2)),
        3 => Some(t.usize(0, 40)),
        4 => Some(t.usize(40, 150)),
        _ => Some(huge(t)),
    }
}

/// Counts that nothing comes near to, but that look small when cut to fewer bits.
pub fn huge(t: &mut Tape) -> usize {
    let low = t.usize(0, 8);
    *t.pick(&[(1 << 32) + low, usize::MAX - low, (1 << 63) + low, (1 << 53) + low, (1 << 40) + low, (1 << 31) + low, (1 << 16) * 1_000_003 + low])
}

/// More concurrency than there is budget, by far.
fn wide(t: &mut Tape, c: &mut Cfg) {
    if c.budget.map_or(false, |n| n <= 40) && t.chance(1, 60) {
        c.nc = huge(t);
    }
}

pub fn gen_style(t: &mut Tape) -> Style {
    *t.pick(&[
        Style::Dyadic,
        Style::Dyadic,
        Style::OfValue,
        Style::Improving,
        Style::Worsening,
        Style::Constant,
        Style::Extreme,
        Style::Close,
    ])
}

/// A mixture in which nothing dominates.
pub fn base(t: &mut Tape) -> Cfg {
    let mut c = Cfg::new(tiny_spec(t));
    c.nc = gen_nc(t);
    c.sample = gen_sample(t);
    c.budget = gen_budget(t, c.nc);
    c.style = gen_style(t);
    c.cap = t.usize(5, 60);
    c.p_immediate = *t.pick(&[0, 0, 0, 100, 500]);
    c.p_reject = *t.pick(&[0, 0, 100, 500, 1000]);
    c.p_batch = *t.pick(&[0, 200, 700]);
    c.p_stubborn = *t.pick(&[0, 0, 300, 1000]);
    c.p_abort_value = *t.pick(&[0, 0, 500]);
    c.p_again = *t.pick(&[0, 300]);
    c.report_cap = *t.pick(&[16, 0, 1]);
    c.rt_seed = t.below(1 << 16);
    c.close = c.rt_seed;
    if t.chance(1, 6) {
        c.guess = Some(json_of(&gen_value(t, &c.spec)));
    }
    if t.chance(1, 150) {
        c.sample = huge(t);
    }
    c
}

pub fn with_target(t: &mut Tape, c: &mut Cfg) {
    if matches!(c.style, Style::Extreme | Style::Close) || c.sample > 1 {
        c.style = *t.pick(&[Style::Dyadic, Style::OfValue, Style::Worsening]);
    }
    c.target = Some(match c.style {
        Style::Dyadic => *t.pick(&[0.0, 0.25, 0.5, 1.0, 2.0, -1.0]),
        Style::OfValue => t.below(640) as f64 / 64.0,
        Style::Improving => 1000.0 - t.below(50) as f64,
        Style::Worsening => *t.pick(&[-1.0, 0.0, 3.0]),
        _ => *t.pick(&[1.0, 0.0]),
    });
    if c.sample == 1 {
        c.target = c.target.map(|v| beside(t, v));
    }
}

pub fn run_c01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 4), size: t.usize(1, 24), ..GenCfg::default() };
    let spec = gen_spec(t, &cfg);
    let mut c = base(t);
    c.spec = spec;
    c.guess = if t.chance(1, 2) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
    c.budget = Some(if t.chance(1, 8) { t.usize(100, 200) } else { t.usize(5, 80) });
    c.cap = 1000;
    if c.p_reject == 1000 {
        c.p_reject = 900;
    }
    c.p_terminate = *t.pick(&[0, 0, 20]);
    let r = run(t, &c)?;
    r.labels(ctx);
    r.ended()?;
    oracle::c01(&r)?;
    let init = r.cfg.guess.clone().unwrap_or(r.initial());
    let varied = r.evals.iter().filter(|e| e.value != init).count();
    ctx.num("parameter sets other than the initial value", varied as u64);
    if varied > 0 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

/// Long runs that drive the adaptive step size to extremes.
pub fn run_extreme_steps(t: &mut Tape, ctx: &mut Ctx, oracle: fn(&Run) -> Result<(), String>) -> Result<(), String> {
    let mut c = Cfg::new(match t.below(4) {
        0 => Node::Real { init: 1.0, scale: 1.0, min: None, max: None },
        1 => Node::Real { init: 1.0, scale: 1e100, min: None, max: Some(1e101) },
        2 => Node::Real { init: 1e300, scale: 1e100, min: None, max: None },
        _ => Node::Array { value_type: Box::new(Node::Real { init: 1.0, scale: 1.0, min: None, max: None }), size: 2 },
    });
    c.nc = t.usize(1, 3);
    c.style = *t.pick(&[Style::Grow, Style::Shrink]);
    c.budget = Some(match t.below(if ctx.thorough { 5 } else { 4 }) {
        0 => t.usize(500, 3000),
        1 | 2 => t.usize(10_000, 40_000),
        3 => t.usize(40_000, 120_000),
        _ => t.usize(120_000, 400_000),
    });
    c.cap = usize::MAX / 4;
    c.p_immediate = 950;
    c.rt_seed = t.below(1 << 16);
    c.close = c.rt_seed;
    let r = run(t, &c)?;
    r.labels(ctx);
    r.ended()?;
    oracle(&r)?;
    let scales: Vec<f64> = r.items.iter().filter_map(|i| i.meta.map(|m| m[3])).collect();
    let hi = scales.iter().cloned().fold(1.0, f64::max);
    let lo = scales.iter().cloned().fold(1.0, f64::min);
    if hi > 1e30 {
        ctx.label("mutation scale above 1e30");
    }
    if hi > 1e200 {
        ctx.label("mutation scale above 1e200");
    }
    if lo < 1e-30 {
        ctx.label("mutation scale below 1e-30");
    }
    if lo < 1e-200 {
        ctx.label("mutation scale below 1e-200");
    }
    if hi > 1e30 || lo < 1e-30 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| serde_json::json!({"config": c.describe(), "largest scale": hi, "smallest scale": lo, "result": format!("{:?}", r.res)}));
    }
    Ok(())
}

macro_rules! fam {
    ($name:ident, $title:expr, $quick:expr, $thorough:expr, $f:expr, $rule:expr) => {
        pub fn $name() -> Family {
            Family::new($title, $quick, $thorough, $f, $rule).cpu(30)
        }
    };
}

/// Gives every anonymous map a maximum, as a map without one can grow by thousands of elements.
pub fn bound_maps(n: &mut Node) {
    match n {
        Node::AnonMap { value_type, init_size, min_size, max_size } => {
            max_size.get_or_insert(8.max(*init_size).max(min_size.unwrap_or(0) + 1));
            bound_maps(value_type);
        }
        Node::Array { value_type, .. } | Node::Optional { value_type, .. } => bound_maps(value_type),
        Node::Sub { map } | Node::Variant { map, .. } => map.values_mut().for_each(|n| bound_maps(n)),
        _ => {}
    }
}

/// Runs of thousands of evaluations.
pub fn long(t: &mut Tape, ctx: &mut Ctx, judge: &[fn(&Run) -> Result<(), String>]) -> Result<(), String> {
    let mut spec = tiny_spec(t);
    bound_maps(&mut spec);
    let mut c = Cfg::new(spec);
    c.sample = *t.pick(&[1, 1, 1, 1, 2, 3, 8]);
    c.nc = gen_nc(t);
    let n = match t.below(if ctx.thorough { 6 } else { 5 }) {
        0 => t.usize(400, 1500),
        1 | 2 => t.usize(1500, 5000),
        3 => t.usize(5000, 12_000),
        4 => t.usize(12_000, 30_000),
        _ => t.usize(30_000, 120_000),
    };
    // beyond 16 bits
    let n = if t.chance(1, 50) { t.usize(66_000, 140_000) } else { n };
    c.cap = usize::MAX / 4;
    c.style = gen_style(t);
    c.p_immediate = *t.pick(&[1000, 990, 950]);
    if n < 5000 {
        c.p_immediate = *t.pick(&[990, 800, 0]);
        c.p_batch = *t.pick(&[0, 700]);
    }
    c.p_reject = *t.pick(&[0, 0, 30, 500, 1000]);
    c.p_stubborn = *t.pick(&[0, 300]);
    c.rt_seed = t.below(1 << 16);
    c.close = c.rt_seed;
    c.guess = if t.chance(1, 3) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
    // what is to end the run
    match t.below(4) {
        0 | 1 => c.budget = Some(n),
        2 => {
            c.budget = Some(2 * n);
            c.style = Style::Improving;
            c.sample = 1;
            c.target = Some(1000.0 - n as f64);
        }
        _ => {
            c.cap = n;
            c.p_again = *t.pick(&[0, 300]);
        }
    }
    let r = run(t, &c)?;
    r.labels(ctx);
    ctx.num("evaluations started", r.evals.len() as u64);
    for f in judge {
        f(&r)?;
    }
    if r.evals.len() > 5000 {
        ctx.label("more than 5000 evaluations");
    }
    if r.evals.len() > 65_536 {
        ctx.label("more than 65 536 evaluations");
    }
    if r.rejected() == r.evals.len() {
        ctx.label("all rejected");
    }
    if r.evals.len() >= 400 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| serde_json::json!({"config": c.describe(), "evaluations": r.evals.len(), "result": format!("{:?}", r.res)}));
    }
    Ok(())
}

macro_rules! long {
    ($name:ident, $run:ident, $f:expr) => {
        fn $run(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
            long(t, ctx, &[$f])
        }
        fam!($name, "long", 400, 4000, $run, "runs of 400 to 30 000 evaluations, some of up to 140 000, over small specs, ended by the budget, a target or a terminate command; the same judgement as for the short runs; non-trivial: at least 400 evaluations");
    };
}

/// Two runs that take turns in one thread, each judged as if it was alone.
pub fn pair(t: &mut Tape, ctx: &mut Ctx, judge: fn(&Run) -> Result<(), String>) -> Result<(), String> {
    let mut cs = Vec::new();
    for _ in 0..2 {
        let mut c = base(t);
        if t.chance(1, 4) {
            let g = GenCfg { max_depth: t.usize(0, 3), size: t.usize(1, 12), ..GenCfg::default() };
            c.spec = gen_spec(t, &g);
            c.guess = if t.chance(1, 2) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
        }
        if t.chance(1, 4) {
            with_target(t, &mut c);
        }
        c.p_terminate = *t.pick(&[0, 0, 0, 50]);
        c.p_fail = *t.pick(&[0, 0, 0, 30]);
        c.p_nonfinite = *t.pick(&[0, 0, 0, 30]);
        cs.push(c);
    }
    if t.chance(1, 4) {
        let spec = cs[0].spec.clone();
        cs[1].spec = spec;
        cs[1].guess = cs[0].guess.clone();
    }
    let mut t2 = Tape::random(t.below(u64::MAX));
    let (a, b) = run_pair((t, &cs[0]), (&mut t2, &cs[1]))?;
    a.labels(ctx);
    for (r, other) in [(&a, &b), (&b, &a)] {
        let told = |m: String| format!("{}\nwhile this run takes turns with it:\n{}", m, other.cfg.describe());
        judge(r).map_err(told)?;
        if let Res::Panic(m) = &r.res {
            return r.fail(m);
        }
    }
    if a.evals.len().min(b.evals.len()) > 2 {
        ctx.nontrivial(&format!("{}{}", a.fingerprint(), b.fingerprint()));
        ctx.sample(|| serde_json::json!([a.sample_json(), b.sample_json()]));
    }
    Ok(())
}

macro_rules! pair {
    ($name:ident, $run:ident, $f:expr) => {
        fn $run(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
            pair(t, ctx, $f)
        }
        fam!($name, "pair", 30000, 300000, $run, "two driven runs that take turns in one thread, one event each; the judgement of family `run` (or `records`) on both; non-trivial: more than two evaluations in each");
    };
}

/// The two operators over long histories, as the algorithm core applies them.
pub fn ops_c01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 30), ..GenCfg::default() };
    let spec = cambrian::spec::Spec(gen_spec(t, &cfg));
    let steps = t.usize(2, 120);
    let yaml = to_yaml(&spec.0);
    let mut outputs = 0;
    crate::ops::history(t, ctx, &spec.clone(), steps, &mut |ev, ctx| {
        let (out, how) = match ev {
            crate::ops::Ev::Mutated { out, prob, scale, src } => {
                (out, format!("mutation (probability {}, scale {}) of {}", prob, scale, crate::ops::show(src)))
            }
            crate::ops::Ev::Crossed { out, prob, pressure, parents } => (
                out,
                format!(
                    "crossover (probability {}, pressure {}) of {}",
                    prob,
                    pressure,
                    parents.iter().map(|p| crate::ops::show(p)).collect::<Vec<_>>().join(" | ")
                ),
            ),
        };
        outputs += 1;
        conforms_value(&spec.0, out, "")
            .and_then(|_| conforms_json(&spec.0, &cambrian::value::Value((*out).clone()).to_json(), ""))
            .map_err(|m| format!("{} gives a non-conforming value: {}: {}\nspec: {}", how, m, crate::ops::show(out), yaml))?;
        if outputs > 10 && count_nodes(&spec.0) > 1 {
            ctx.nontrivial(&format!("{}{}", yaml, crate::ops::show(out)));
            ctx.sample(|| serde_json::json!({"spec": yaml, "step": how, "output": crate::ops::show(out)}));
        }
        Ok(())
    })?;
    ctx.num("offspring", outputs);
    Ok(())
}

fn steps_c01(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    run_extreme_steps(t, ctx, oracle::c01)
}
fn steps_c14(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    run_extreme_steps(t, ctx, oracle::c14)
}
fn steps_c15(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    run_extreme_steps(t, ctx, oracle::c15)
}

fn run_c02(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if t.chance(1, 6) {
        c.budget = Some(t.usize(101, 260));
        c.cap = 1000;
        if c.p_reject == 1000 {
            c.p_reject = 300;
        }
        c.p_immediate = 500;
    } else if t.chance(1, 20) {
        large_samples(t, &mut c);
    }
    if t.chance(1, 3) {
        with_target(t, &mut c);
    }
    c.p_terminate = *t.pick(&[0, 0, 30, 100]);
    c.p_fail = *t.pick(&[0, 0, 0, 20]);
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c02(&r)?;
    if let Res::Panic(m) = &r.res {
        return r.fail(m);
    }
    if r.accepted() >= 2 && matches!(r.res, Res::Report { .. }) {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fn run_c03(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if c.budget.is_none() && !t.chance(1, 5) {
        c.budget = Some(t.usize(0, 30));
    }
    if t.chance(1, 10) {
        c.budget = Some(t.usize(100, 400));
    }
    c.cap = if t.chance(4, 5) { 1000 } else { c.cap };
    c.p_terminate = *t.pick(&[0, 0, 0, 30]);
    c.p_fail = *t.pick(&[0, 0, 0, 20]);
    if t.chance(1, 5) {
        with_target(t, &mut c);
    }
    wide(t, &mut c);
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c03(&r)?;
    if let Some(n) = c.budget {
        if n < c.nc {
            ctx.label("budget below the concurrency level");
        }
        if n == 0 {
            ctx.label("budget 0");
        }
        if r.evals.len() == n {
            ctx.label("budget used up");
            if n > c.nc {
                ctx.nontrivial(&r.fingerprint());
                ctx.sample(|| r.sample_json());
            }
        }
    }
    Ok(())
}

fn run_c04(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if t.chance(1, 2) {
        with_target(t, &mut c);
    }
    c.p_terminate = *t.pick(&[0, 30, 100, 400]);
    c.early = t.chance(1, 40);
    c.p_fail = *t.pick(&[0, 0, 0, 50]);
    if c.p_reject == 1000 && t.chance(1, 2) {
        c.p_reject = 300;
    }
    if t.chance(1, 2) {
        c.budget = None;
    }
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c04(&r)?;
    if r.log.iter().any(|e| matches!(e, Evt::Terminate)) && r.evals.iter().any(|e| e.told) {
        ctx.label("evaluations in flight were told to abort");
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    if r.target_hit().is_some() && r.evals.iter().any(|e| e.dropped || e.told) {
        ctx.label("target reached with evaluations in flight");
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fn run_c05(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    c.p_terminate = *t.pick(&[0, 0, 30]);
    c.p_fail = *t.pick(&[0, 0, 20]);
    if t.chance(1, 3) {
        c.sample = t.usize(2, 6);
        c.budget = Some(t.usize(60, 220));
        c.cap = 1000;
        c.p_reject = *t.pick(&[0, 100]);
        c.p_immediate = *t.pick(&[0, 200]);
    }
    if t.chance(1, 6) {
        with_target(t, &mut c);
    }
    wide(t, &mut c);
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c05(&r)?;
    if c.nc > 1 && r.done().len() > 2 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fn run_c06(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    c.p_fail = *t.pick(&[0, 30, 100, 500]);
    c.p_nonfinite = *t.pick(&[0, 0, 30, 100]);
    c.p_terminate = *t.pick(&[0, 0, 0, 50]);
    if t.chance(1, 3) {
        with_target(t, &mut c);
    }
    if c.p_reject == 1000 {
        c.p_reject = 300;
    }
    wide(t, &mut c);
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c06(&r)?;
    if let Some(f) = r.first_failure() {
        ctx.label(if matches!(f.done, Some(Out::Value(_))) { "non-finite value" } else { "objective function error" });
        if r.evals.iter().any(|e| e.told) {
            ctx.label("others were in flight");
            ctx.nontrivial(&r.fingerprint());
            ctx.sample(|| r.sample_json());
        }
        if r.failures().len() > 1 {
            ctx.label("more than one failure");
        }
    }
    Ok(())
}

fn run_c08(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if t.chance(2, 3) {
        c.sample = t.usize(2, 6);
    }
    if t.chance(1, 2) {
        c.budget = Some(t.usize(60, 300));
        c.cap = 1000;
        c.p_immediate = *t.pick(&[0, 300, 700]);
        c.p_reject = *t.pick(&[0, 100, 300]);
    } else if t.chance(1, 10) {
        large_samples(t, &mut c);
    }
    c.guess = if t.chance(1, 2) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c08(&r)?;
    if let Res::Panic(m) = &r.res {
        return r.fail(m);
    }
    let ids: std::collections::BTreeSet<usize> = r.evals.iter().map(|e| e.id).collect();
    ctx.num("re-evaluations", (r.evals.len() - ids.len()) as u64);
    if r.evals.len() > ids.len() || c.guess.is_some() && r.evals.len() > 1 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fn run_c14(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if t.chance(1, 6) {
        c.budget = Some(t.usize(60, 300));
        c.cap = 1000;
        c.p_immediate = 500;
        if c.p_reject == 1000 {
            c.p_reject = 300;
        }
    }
    c.p_terminate = *t.pick(&[0, 0, 30, 100]);
    c.p_fail = *t.pick(&[0, 0, 0, 20]);
    if t.chance(1, 4) {
        with_target(t, &mut c);
    }
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c14(&r)?;
    if let Res::Panic(m) = &r.res {
        return r.fail(m);
    }
    ctx.num("records", r.items.len() as u64);
    if r.items.iter().any(|i| i.meta.is_some()) {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fn run_c15(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = base(t);
    if t.chance(1, 3) {
        let cfg = GenCfg { max_depth: t.usize(0, 3), size: t.usize(1, 12), ..GenCfg::default() };
        c.spec = gen_spec(t, &cfg);
        c.guess = if t.chance(1, 4) { Some(json_of(&gen_value(t, &c.spec))) } else { None };
    }
    c.style = *t.pick(&[Style::Extreme, Style::Extreme, Style::Extreme, Style::Constant, Style::Grow, Style::Shrink, Style::OfValue]);
    if t.chance(1, 5) {
        c.budget = Some(t.usize(60, 300));
        c.cap = 1000;
        c.p_immediate = 600;
    }
    c.p_terminate = *t.pick(&[0, 0, 30]);
    c.p_fail = *t.pick(&[0, 0, 0, 20]);
    if t.chance(1, 3) {
        c.sample = t.usize(2, 6);
    }
    if t.chance(1, 4) {
        c.target = Some(*t.pick(&[-1e300, 0.0, -0.0, 1e300, 5e-324]));
    }
    let r = run(t, &c)?;
    r.labels(ctx);
    oracle::c15(&r)?;
    if r.evals.len() > 1 {
        ctx.nontrivial(&r.fingerprint());
        ctx.sample(|| r.sample_json());
    }
    Ok(())
}

fam!(f_c01, "run", 60000, 800000, run_c01, "whole driven runs over generated specs, guesses, objective values, rejections, completion orders, sample sizes and concurrency levels; every evaluate() argument and the reported best against the reference predicate; non-trivial: at least one parameter set differs from the initial value");
fam!(f_c01_ops, "operators", 120000, 3000000, ops_c01, "histories of up to 120 mutations and recombinations over a generated spec, from the initial value or a guess, probabilities in [0,1], scales 5e-324..1e200; every output against the reference predicate, as a value and as JSON; non-trivial: more than 10 offspring of a spec with more than one node");
fam!(f_c01_steps, "extreme_steps", 48, 600, steps_c01, "long runs on unbounded reals whose objective rewards ever larger or ever smaller steps; non-trivial: the adaptive mutation scale left [1e-30, 1e30]");
fam!(f_c02, "run", 240000, 2400000, run_c02, "driven runs with ties, rejections, any completion order, more than 100 individuals, targets, terminations; best-seen against the log of all results; non-trivial: a report after at least two accepted evaluations");
fam!(f_c03, "run", 240000, 2400000, run_c03, "driven runs with budgets from 0 over less than the concurrency level to 400; starts and reported counts against the budget; non-trivial: a budget above the concurrency level was used up");
fam!(f_c04, "run", 240000, 2400000, run_c04, "driven runs with a target and/or a terminate command at a generated point, with evaluations that honour, answer or ignore the abort; non-trivial: evaluations were in flight when the run was stopped");
fam!(f_c05, "run", 240000, 2400000, run_c05, "driven runs judged at every start and at every quiescent point; non-trivial: num_concurrent > 1 and more than two completions");
fam!(f_c06, "run", 240000, 2400000, run_c06, "driven runs with evaluations that fail or return a non-finite value; non-trivial: others were in flight at the first failure");
fam!(f_c08, "run", 160000, 1600000, run_c08, "driven runs with sample sizes 1 to 6; (id, seed, value) of every start; non-trivial: re-evaluations happened, or the run started from a guess");
fam!(f_c14, "records", 160000, 1600000, run_c14, "driven runs; the record stream and the final counts against the log of evaluate(); non-trivial: records with adaptive parameters");
fam!(f_c14_steps, "extreme_steps", 48, 600, steps_c14, "long runs that push the adaptive mutation scale to extremes; every recorded probability and scale; non-trivial: the scale left [1e-30, 1e30]");
fam!(f_c15, "run", 160000, 1600000, run_c15, "driven runs with objective values of any magnitude up to 1e300, ties, negative zero, rejections, stubborn evaluations; the run must return without panic; non-trivial: more than one evaluation");
fam!(f_c15_steps, "extreme_steps", 48, 600, steps_c15, "long runs that push the adaptive mutation scale to extremes; non-trivial: the scale left [1e-30, 1e30]");

long!(f_c02_long, long_c02, oracle::c02);
long!(f_c03_long, long_c03, oracle::c03);
long!(f_c04_long, long_c04, oracle::c04);
long!(f_c05_long, long_c05, oracle::c05);
long!(f_c08_long, long_c08, oracle::c08);
long!(f_c14_long, long_c14, oracle::c14);
long!(f_c15_long, long_c15, oracle::c15);
pair!(f_c01_pair, pair_c01, oracle::c01);
pair!(f_c02_pair, pair_c02, oracle::c02);
pair!(f_c03_pair, pair_c03, oracle::c03);
pair!(f_c04_pair, pair_c04, oracle::c04);
pair!(f_c05_pair, pair_c05, oracle::c05);
pair!(f_c06_pair, pair_c06, oracle::c06);
pair!(f_c08_pair, pair_c08, oracle::c08);
pair!(f_c14_pair, pair_c14, oracle::c14);
pair!(f_c15_pair, pair_c15, oracle::c15);
