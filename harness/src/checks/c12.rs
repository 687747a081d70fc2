use crate::engine::{catch, Check, Ctx, Family};
use crate::model::*;
use crate::ops::*;
use crate::tape::Tape;
use cambrian::crossover::Crossover;
use cambrian::meta::CrossoverParams;
use cambrian::mutation;
use cambrian::spec::{Node, Spec};
use cambrian::value::{Node as V, Value};
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::json;

fn judge(spec: &Node, parents: &[&V], out: &V) -> Result<(), String> {
    let desc = || {
        format!(
            "\nspec: {}\nparents (best first):\n  {}\noffspring:\n  {}",
            to_yaml(spec),
            parents.iter().map(|p| show(p)).collect::<Vec<_>>().join("\n  "),
            show(out)
        )
    };
    provenance(spec, parents, out, "").map_err(|m| m + &desc())?;
    if parents.iter().all(|p| same(p, parents[0])) && !same(parents[0], out) {
        return Err(format!("identical parents, but the offspring differs{}", desc()));
    }
    Ok(())
}

/// A close relative of a value.
fn relative(t: &mut Tape, spec: &Node, v: &V) -> V {
    let keep = t.chance(1, 2);
    match (spec, v) {
        (Node::Real { min, max, .. }, V::Real(x)) if !keep => {
            let y = match t.below(4) {
                0 => x.next_up(),
                1 => x.next_down(),
                2 => x + 1.0,
                _ => -x,
            };
            let y = if y.is_finite() { y } else { *x };
            V::Real(y.max(min.unwrap_or(y)).min(max.unwrap_or(y)))
        }
        (Node::Int { min, max, .. }, V::Int(x)) if !keep => {
            V::Int(x.saturating_add(t.range(-3, 3)).clamp(min.unwrap_or(i64::MIN), max.unwrap_or(i64::MAX)))
        }
        (Node::Sub { map }, V::Sub(m)) => V::Sub(sorted(map).into_iter().map(|(k, s)| (k.clone(), Box::new(relative(t, s, &m[k])))).collect()),
        (Node::Array { value_type, .. }, V::Array(a)) => V::Array(a.iter().map(|e| Box::new(relative(t, value_type, e))).collect()),
        (Node::AnonMap { value_type, min_size, .. }, V::AnonMap(m)) => {
            let mut keys: Vec<usize> = m.keys().copied().collect();
            keys.sort();
            if keys.len() > min_size.unwrap_or(0) && t.chance(1, 3) {
                let at = t.below(keys.len() as u64) as usize;
                keys.remove(at);
            }
            V::AnonMap(keys.into_iter().map(|k| (k, Box::new(relative(t, value_type, &m[&k])))).collect())
        }
        (Node::Variant { map, .. }, V::Variant(k, w)) if keep => V::Variant(k.clone(), Box::new(relative(t, &map[k], w))),
        (Node::Optional { value_type, .. }, V::Optional(Some(w))) if keep => V::Optional(Some(Box::new(relative(t, value_type, w)))),
        _ if keep => v.clone(),
        _ => gen_value(t, spec),
    }
}

/// Independent parents, fresh context.
fn lists(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 30), ..GenCfg::default() };
    let spec = Spec(gen_spec(t, &cfg));
    let n = match t.weighted(&[40, 6, 1]) {
        0 => t.usize(1, 8),
        1 => t.usize(9, 30),
        _ => t.usize(60, 101),
    };
    let related = t.chance(1, 2);
    let mut parents: Vec<Value> = Vec::new();
    let same_all = t.chance(1, 12);
    for i in 0..n {
        if i > 0 && (same_all || t.chance(1, 5)) {
            let j = t.below(i as u64) as usize;
            parents.push(parents[j].clone());
        } else if i > 0 && related && t.chance(3, 4) {
            let j = t.below(i as u64) as usize;
            let p = relative(t, &spec.0, &parents[j].0);
            parents.push(Value(p));
        } else {
            parents.push(Value(gen_value(t, &spec.0)));
        }
    }
    let refs: Vec<&Value> = parents.iter().collect();
    let nodes: Vec<&V> = parents.iter().map(|p| &p.0).collect();
    let all_same = nodes.iter().all(|p| same(p, nodes[0]));
    ctx.label(if n > 30 { "60-101 parents".into() } else if n > 8 { "9-30 parents".into() } else { format!("{} parents", n) });
    if all_same {
        ctx.label("identical parents");
    }
    let mut rng = StdRng::seed_from_u64(t.u64());
    for round in 0..8 {
        let cp = CrossoverParams { crossover_prob: gen_prob(t), selection_pressure: gen_prob(t) };
        // a new context, or one that has seen the parents
        let mut pctx = new_ctx(mutation::mutate);
        if round % 2 == 1 {
            for p in &parents {
                pctx.add_nodes_for(p);
            }
        }
        let out = catch(|| Crossover::new().crossover(&spec, &refs, &cp, &mut pctx, &mut rng))
            .map_err(|e| format!("crossover: {}\nspec: {}", e, to_yaml(&spec.0)))?;
        judge(&spec.0, &nodes, &out.0).map_err(|m| format!("{}\nparameters: {:?}", m, cp))?;
        if !nodes.iter().any(|p| same(p, &out.0)) {
            ctx.label("offspring differs from every parent");
            ctx.nontrivial(&format!("{}{}", to_yaml(&spec.0), show(&out.0)));
            ctx.sample(|| json!({"spec": to_yaml(&spec.0), "parents": nodes.iter().map(|p| show(p)).collect::<Vec<_>>(), "offspring": show(&out.0), "params": format!("{:?}", cp)}));
        }
    }
    Ok(())
}

/// Parents that arose from each other by mutation and recombination.
fn bred(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(1, 5), size: t.usize(2, 30), ..GenCfg::default() };
    let spec = Spec(gen_spec(t, &cfg));
    let steps = t.usize(2, 60);
    let yaml = to_yaml(&spec.0);
    history(t, ctx, &spec.clone(), steps, &mut |ev, ctx| {
        if let Ev::Crossed { parents, out, prob, pressure } = ev {
            judge(&spec.0, parents, out)?;
            if !parents.iter().any(|p| same(p, out)) {
                ctx.label("offspring differs from every parent");
                ctx.nontrivial(&format!("{}{}", yaml, show(out)));
                ctx.sample(|| json!({"spec": yaml, "parents": parents.iter().map(|p| show(p)).collect::<Vec<_>>(), "offspring": show(out), "crossover_prob": prob, "selection_pressure": pressure}));
            }
        }
        Ok(())
    })
}

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        families: vec![
            Family::new("lists", 800000, 16000000, lists, "a generated spec (10 kinds, nested), an ordered list of 1-101 conforming parents, independent or close relatives, crossover probability and selection pressure in [0,1], 8 recombinations; oracle: position-wise provenance relation, identity for identical parents; non-trivial: an offspring that equals no parent"),
            Family::new("bred", 500000, 8000000, bred, "a history of mutations and recombinations sharing one path context; every recombination is judged by the same relation; non-trivial: an offspring that equals no parent"),
        ],
        assumptions: vec!["the operators are driven through the public functions mutation::mutate and Crossover::crossover"],
    }
}
