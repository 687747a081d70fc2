//! The parts of C11 that need whole runs.
use super::c09::{first_difference, gen_cfg, twin};
use super::c11::{broken_guess, same_json};
use crate::drive::*;
use crate::engine::Ctx;
use crate::model::*;
use crate::tape::Tape;

/// The spec's own initial value as the guess gives the same run as no guess.
pub fn own_initial(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut a = gen_cfg(t);
    let g = GenCfg { max_depth: t.usize(0, 4), size: t.usize(1, 24), ..GenCfg::default() };
    a.spec = gen_spec(t, &g);
    a.guess = None;
    let mut b = a.clone();
    b.guess = Some(json_of(&init_value(&a.spec)));
    let (ra, rb) = twin(t, &a, &b)?;
    ra.labels(ctx);
    let (ta, tb) = (ra.trace(), rb.trace());
    if ta != tb {
        return ra.fail(format!(
            "with its own initial value {} as the guess the run differs from the run without a guess: {}",
            b.guess.unwrap(),
            first_difference(&ta, &tb)
        ));
    }
    if ra.evals.iter().any(|e| e.value != ra.evals[0].value) {
        ctx.nontrivial(&ra.fingerprint());
        ctx.sample(|| ra.sample_json());
    }
    Ok(())
}

/// A non-conforming guess ends the run before any evaluation.
pub fn rejected_before(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 4), size: t.usize(1, 20), ..GenCfg::default() };
    let Some((spec, j, what, path)) = broken_guess(t, &cfg) else { return Ok(()) };
    let mut c = gen_cfg(t);
    c.spec = spec.0;
    c.guess = Some(j);
    let r = run(t, &c)?;
    if let Res::Panic(m) = &r.res {
        return r.fail(format!("the guess ({} at {}) crashes the run: {}", what, path, m));
    }
    if !r.evals.is_empty() {
        return r.fail(format!("evaluations started although the guess is not acceptable ({} at {})", what, path));
    }
    if !matches!(r.res, Res::Error(_)) {
        return r.fail(format!("no error although the guess is not acceptable ({} at {}): {:?}", what, path, r.res));
    }
    ctx.label(what);
    ctx.nontrivial(&r.fingerprint());
    ctx.sample(|| r.sample_json());
    Ok(())
}

/// The best-seen of one run seeds the next run.
pub fn reseed(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut a = gen_cfg(t);
    a.budget = Some(t.usize(2, 60));
    let r1 = run(t, &a)?;
    r1.labels(ctx);
    let Res::Report { value, .. } = &r1.res else { return Ok(()) };
    let mut b = gen_cfg(t);
    b.spec = a.spec.clone();
    b.guess = Some(value.clone());
    b.budget = Some(t.usize(1, 4));
    let r2 = run(t, &b)?;
    if let Res::Panic(m) = &r2.res {
        return r2.fail(format!("seeding a run with a reported best-seen: {}", m));
    }
    if let Res::Error(m) = &r2.res {
        return r2.fail(format!("a reported best-seen is not accepted as the next initial guess: {}", m));
    }
    match r2.evals.first() {
        Some(e) if same_json(&e.value, value) => {}
        Some(e) => return r2.fail(format!("seeded with {}, but the first evaluation gets {}", value, e.value)),
        None => return r2.fail("nothing was evaluated"),
    }
    if *value != r1.initial() {
        ctx.nontrivial(&format!("{}{}", to_yaml(&a.spec), value));
        ctx.sample(|| r1.sample_json());
    }
    Ok(())
}
