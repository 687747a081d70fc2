//! Judgements over the log of one driven run, one function per property.

use crate::checks::c11::same_json;
use crate::drive::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

/// Position in the log of the first event that satisfies `f`.
fn pos(r: &Run, f: impl Fn(&Evt) -> bool) -> Option<usize> {
    r.log.iter().position(f)
}

fn starts_after(r: &Run, at: usize) -> Vec<usize> {
    r.log[at..].iter().filter_map(|e| if let Evt::Start(i) = e { Some(*i) } else { None }).collect()
}

// ---------------------------------------------------------------- C01

pub fn c01(r: &Run) -> Result<(), String> {
    for (i, e) in r.evals.iter().enumerate() {
        conforms_json(&r.cfg.spec, &e.value, "")
            .map_err(|m| r.err(format!("evaluation #{} gets a non-conforming parameter set: {}: {}", i, m, e.value)))?;
    }
    if let Res::Report { value, .. } = &r.res {
        conforms_json(&r.cfg.spec, value, "")
            .map_err(|m| r.err(format!("the reported best-seen does not conform: {}: {}", m, value)))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02(r: &Run) -> Result<(), String> {
    let mut by_id: BTreeMap<usize, Vec<(f64, &Eval)>> = BTreeMap::new();
    for e in r.done() {
        if let Some(v) = e.done.as_ref().unwrap().accepted() {
            by_id.entry(e.id).or_default().push((v, e));
        }
    }
    let accepted: Vec<(f64, &Eval)> = by_id.values().flatten().copied().collect();
    match &r.res {
        Res::Report { best, value, .. } => {
            if r.cfg.sample == 1 {
                let Some(min) = accepted.iter().map(|x| x.0).min_by(|a, b| a.total_cmp(b)) else {
                    return r.fail("a best-seen is reported although no evaluation was accepted");
                };
                if !accepted.iter().any(|(v, e)| v == best && same_json(&e.value, value)) {
                    return r.fail(format!("the reported best-seen ({:?}, {}) is no accepted evaluation of this run", best, value));
                }
                if *best > min {
                    return r.fail(format!("the best-seen is {:?}, but {:?} was evaluated", best, min));
                }
            } else {
                let mean = |s: &Vec<(f64, &Eval)>| s.iter().map(|x| x.0).sum::<f64>() / s.len() as f64;
                let close = |a: f64, b: f64, s: &Vec<(f64, &Eval)>| {
                    let m = s.iter().fold(0.0f64, |m, x| m.max(x.0.abs()));
                    (a - b).abs() <= 1e-12 * m
                };
                let full: Vec<&Vec<(f64, &Eval)>> = by_id.values().filter(|s| s.len() == r.cfg.sample).collect();
                if !full.iter().any(|s| close(mean(s), *best, s) && s.iter().all(|(_, e)| same_json(&e.value, value))) {
                    return r.fail(format!(
                        "the reported best-seen ({:?}, {}) is not the mean of {} results of one individual",
                        best, value, r.cfg.sample
                    ));
                }
                if by_id.len() <= 100 {
                    if let Some(s) = full.iter().find(|s| mean(s) < *best && !close(mean(s), *best, s)) {
                        return r.fail(format!("the best-seen is {:?}, but individual {} has mean {:?}", best, s[0].1.id, mean(s)));
                    }
                }
            }
        }
        Res::NoIndividuals => {
            if r.cfg.sample == 1 && !accepted.is_empty() {
                return r.fail("ends with 'no individuals' although an evaluation was accepted");
            }
            if by_id.len() <= 100 && by_id.values().any(|s| s.len() == r.cfg.sample) {
                return r.fail("ends with 'no individuals' although an individual completed its sample");
            }
        }
        _ => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

pub fn c03(r: &Run) -> Result<(), String> {
    r.ended()?;
    let started = r.evals.len();
    if let Some(n) = r.cfg.budget {
        if started > n {
            return r.fail(format!("{} evaluations started with a budget of {}", started, n));
        }
        let other = r.terminated_in.is_some() || !r.failures().is_empty() || r.target_hit().is_some();
        if !other {
            if started != n {
                return r.fail(format!("{} evaluations started with a budget of {} and nothing else to end the run", started, n));
            }
            if let Some(e) = r.evals.iter().find(|e| e.dropped) {
                return r.fail(format!("evaluation of individual {} abandoned although nothing but the budget ends the run", e.id));
            }
            match &r.res {
                Res::Report { completed, rejected, .. } => {
                    if completed + rejected != n {
                        return r.fail(format!("reported counts {} + {} do not add up to the budget {}", completed, rejected, n));
                    }
                }
                Res::Error(m) => return r.fail(format!("ends with an error for no reason: {}", m)),
                _ => {}
            }
        }
    } else if r.terminated_in.is_none() && r.failures().is_empty() && r.target_hit().is_none() {
        return r.fail("the run ended although no criterion was met");
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(r: &Run) -> Result<(), String> {
    r.ended()?;
    let hit = r.target_hit();
    let failed = r.first_failure();
    // target
    if let (Some(h), None) = (hit, failed) {
        if (r.cfg.sample == 1 || r.individuals() <= 100) && r.terminated_in.map_or(true, |t| h.done_round < t) {
            let h_idx = r.evals.iter().position(|e| e.done_order == h.done_order).unwrap();
            let at = pos(r, |e| matches!(e, Evt::Done(i) if *i == h_idx)).unwrap();
            let extra = starts_after(r, at);
            let allowed = r.done_in(h.done_round) - 1;
            if extra.len() > allowed {
                return r.fail(format!(
                    "the target {} was reached by evaluation #{}, then {} more started",
                    r.cfg.target.unwrap(),
                    h_idx,
                    extra.len()
                ));
            }
            let same_round_failure = r.failures().iter().any(|e| e.done_round == h.done_round);
            match &r.res {
                Res::Report { best, .. } if *best <= r.cfg.target.unwrap() => {}
                Res::Report { best, .. } => {
                    return r.fail(format!("the target was reached, but the best-seen is {:?}", best))
                }
                _ if same_round_failure => {}
                other => return r.fail(format!("the target was reached, but the run ends with {:?}", other)),
            }
            // must not wait for evaluations that honour the abort
            if !r.evals.iter().any(|e| e.stubborn) && r.end_round > h.done_round {
                return r.fail("the target was reached, but the run went on waiting");
            }
        }
    }
    // termination
    if let Some(t) = r.terminated_in {
        let stopped_before = failed.map_or(false, |f| f.done_round < t) || hit.map_or(false, |h| h.done_round < t);
        if stopped_before {
            return Ok(());
        }
        let at = pos(r, |e| matches!(e, Evt::Terminate)).unwrap();
        let late = starts_after(r, at);
        let alone = !r.log[at..].iter().take_while(|e| !matches!(e, Evt::Quiet(_))).any(|e| matches!(e, Evt::Deliver(..)));
        if !late.is_empty() {
            return r.fail(format!("{} evaluations started after the terminate command", late.len()));
        }
        let mut quiet_after = r.log[at..].iter().filter_map(|e| if let Evt::Quiet(q) = e { Some(q) } else { None });
        if let Some(q) = quiet_after.find(|q| q.told < q.in_flight.len()) {
            return r.fail(format!("after the terminate command only {} of {} evaluations in flight were told to abort", q.told, q.in_flight.len()));
        }
        // it waits for what is in flight (unless the target is reached meanwhile)
        let fail_same = r.failures().iter().any(|e| e.done_round == t && !alone);
        if hit.is_none() {
            if let Some(i) = r.evals.iter().position(|e| e.dropped) {
                if !fail_same {
                    return r.fail(format!("evaluation #{} was abandoned, not awaited, after the terminate command", i));
                }
            }
        }
        // and still yields the best result
        let accepted = r.accepted();
        match &r.res {
            Res::Report { .. } => {}
            Res::Error(_) if fail_same => {}
            Res::NoIndividuals if accepted == 0 || r.cfg.sample > 1 => {}
            Res::Error(_) if accepted == 0 => {}
            other => return r.fail(format!("terminated with {} accepted evaluations, but ends with {:?}", accepted, other)),
        }
        c02(r)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05(r: &Run) -> Result<(), String> {
    r.ended()?;
    if r.max_active > r.cfg.nc {
        return r.fail(format!("{} evaluations in progress with num_concurrent {}", r.max_active, r.cfg.nc));
    }
    if let Some(id) = r.same_id_twice {
        return r.fail(format!("individual {} is being evaluated twice at the same time", id));
    }
    let stop_round = [
        r.terminated_in,
        r.failures().first().map(|e| e.done_round),
        r.target_hit().map(|e| e.done_round),
    ]
    .into_iter()
    .flatten()
    .min()
    .unwrap_or(usize::MAX);
    let mut done = 0;
    for e in &r.log {
        match e {
            Evt::Done(_) => done += 1,
            Evt::Quiet(q) if q.round < stop_round => {
                let room = r.cfg.budget.map_or(usize::MAX, |n| n.saturating_sub(done));
                let want = r.cfg.nc.min(room);
                if q.in_flight.len() != want {
                    return r.fail(format!(
                        "after {} completed evaluations {} are in progress instead of {} (num_concurrent {}, budget {:?})",
                        done,
                        q.in_flight.len(),
                        want,
                        r.cfg.nc,
                        r.cfg.budget
                    ));
                }
            }
            _ => {}
        }
    }
    if stop_round == usize::MAX && r.cfg.budget.map_or(true, |n| done < n) {
        return r.fail("the run ended early for no reason");
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(r: &Run) -> Result<(), String> {
    r.ended()?;
    let Some(f) = r.first_failure() else { return Ok(()) };
    let f_idx = r.evals.iter().position(|e| e.done_order == f.done_order).unwrap();
    if let Some(h) = r.target_hit() {
        if r.cfg.sample > 1 && r.individuals() > 100 || h.done_order < f.done_order || h.done_round == f.done_round {
            return Ok(()); // the run was over, or both happened at once
        }
    }
    match &r.res {
        Res::Error(m) if *m == failure_text(f.done.as_ref().unwrap()) => {}
        other => {
            return r.fail(format!(
                "evaluation #{} failed first ({}), but the run ends with {:?}",
                f_idx,
                failure_text(f.done.as_ref().unwrap()),
                other
            ))
        }
    }
    let at = pos(r, |e| matches!(e, Evt::Done(i) if *i == f_idx)).unwrap();
    let late = starts_after(r, at);
    let allowed = r.done_in(f.done_round) - 1;
    if late.len() > allowed {
        return r.fail(format!("{} evaluations started after the failure of #{}", late.len(), f_idx));
    }
    if let Some(i) = late.iter().find(|i| r.evals[**i].told_at_entry || r.evals[**i].start_round > f.done_round) {
        return r.fail(format!("evaluation #{} started after the failure of #{} had been observed", i, f_idx));
    }
    let mut quiet_after = r.log[at..].iter().filter_map(|e| if let Evt::Quiet(q) = e { Some(q) } else { None });
    if let Some(q) = quiet_after.find(|q| q.told < q.in_flight.len()) {
        return r.fail(format!(
            "after the failure of #{} only {} of {} evaluations in flight were told to abort",
            f_idx,
            q.told,
            q.in_flight.len()
        ));
    }
    if let Some(i) = r.evals.iter().position(|e| e.dropped) {
        return r.fail(format!("the run returned while evaluation #{} was still in flight after the failure of #{}", i, f_idx));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08(r: &Run) -> Result<(), String> {
    let mut seeds = BTreeMap::new();
    for (i, e) in r.evals.iter().enumerate() {
        if let Some(j) = seeds.insert(e.seed, i) {
            return r.fail(format!("evaluations #{} and #{} both get seed {}", j, i, e.seed));
        }
    }
    let mut by_id: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, e) in r.evals.iter().enumerate() {
        by_id.entry(e.id).or_default().push(i);
    }
    for (id, evs) in &by_id {
        if evs.len() > r.cfg.sample {
            return r.fail(format!("individual {} is evaluated {} times with sample size {}", id, evs.len(), r.cfg.sample));
        }
        for i in evs {
            if !same_json(&r.evals[*i].value, &r.evals[evs[0]].value) {
                return r.fail(format!(
                    "individual {} is evaluated as {} and as {}",
                    id, r.evals[evs[0]].value, r.evals[*i].value
                ));
            }
        }
    }
    if !r.evals.is_empty() {
        let want = match &r.cfg.guess {
            Some(g) => g.clone(),
            None => r.initial(),
        };
        let low = r.evals.iter().min_by_key(|e| e.id).unwrap();
        if !same_json(&r.evals[0].value, &want) && !same_json(&low.value, &want) {
            return r.fail(format!("the first individual is {} instead of the initial value {}", r.evals[0].value, want));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14 (API side)

pub fn c14(r: &Run) -> Result<(), String> {
    let ok: Vec<&Eval> = r
        .done()
        .into_iter()
        .filter(|e| !e.done.as_ref().unwrap().is_failure())
        .collect();
    let failed: BTreeSet<u64> = r.failures().iter().map(|e| e.seed).collect();
    let mut left: BTreeMap<u64, &Eval> = ok.iter().map(|e| (e.seed, *e)).collect();
    let distinct = left.len() == ok.len();
    for it in &r.items {
        if let Some(m) = &it.meta {
            for (i, p) in m[..3].iter().enumerate() {
                if !(*p >= 0.0 && *p <= 1.0) {
                    return r.fail(format!(
                        "record of individual {}: {} is {}",
                        it.id,
                        ["crossover probability", "selection pressure", "mutation probability"][i],
                        p
                    ));
                }
            }
            if !(m[3] > 0.0 && m[3].is_finite()) {
                return r.fail(format!("record of individual {}: mutation scale is {}", it.id, m[3]));
            }
        }
        if !it.eval_time_ok {
            return r.fail(format!("record of individual {}: absurd evaluation time", it.id));
        }
        if failed.contains(&it.seed) || !distinct {
            continue;
        }
        match left.remove(&it.seed) {
            None => return r.fail(format!("record of individual {} seed {}: no processed evaluation (or a second record of it)", it.id, it.seed)),
            Some(e) => {
                if e.id != it.id {
                    return r.fail(format!("record of seed {} has individual {} instead of {}", it.seed, it.id, e.id));
                }
                if !same_json(&e.value, &it.value) {
                    return r.fail(format!("record of individual {} has parameters {} instead of {}", it.id, it.value, e.value));
                }
                let got = e.done.as_ref().unwrap().accepted();
                if got != it.obj {
                    return r.fail(format!("record of individual {} has result {:?} instead of {:?}", it.id, it.obj, got));
                }
            }
        }
    }
    if !matches!(r.res, Res::Panic(_) | Res::Stuck(_)) {
        if let Some((seed, e)) = left.iter().next() {
            return r.fail(format!("no record of the evaluation of individual {} with seed {}", e.id, seed));
        }
    }
    if let Res::Report { completed, rejected, .. } = &r.res {
        if *completed != r.accepted() || *rejected != r.rejected() {
            return r.fail(format!(
                "the report counts {} completed and {} rejected; {} were accepted and {} rejected",
                completed,
                rejected,
                r.accepted(),
                r.rejected()
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15 (API side)

pub fn c15(r: &Run) -> Result<(), String> {
    r.ended()?;
    if let Res::Report { best, .. } = &r.res {
        if !best.is_finite() {
            return r.fail(format!("the reported objective is {}", best));
        }
    }
    Ok(())
}
