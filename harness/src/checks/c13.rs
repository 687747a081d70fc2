use crate::engine::{Check, Ctx, Family};
use crate::model::*;
use crate::ops::*;
use crate::tape::Tape;
use cambrian::spec::{Node, Spec};
use cambrian::value::Node as V;
use serde_json::json;

pub fn judge_mutation(spec: &Node, src: &V, out: &V, prob: f64, scale: f64, live: bool, info: &mut StepInfo) -> Result<(), String> {
    let c = StepCfg { never: prob == 0.0, always: prob == 1.0, mscale: scale, live };
    let desc = || {
        format!(
            "\nspec: {}\ninput:  {}\noutput: {}\nmutation probability {}, scale {}",
            to_yaml(spec),
            show(src),
            show(out),
            prob,
            scale
        )
    };
    step(spec, src, out, c, "", info, false).map_err(|m| m + &desc())?;
    if prob == 0.0 && !same(src, out) {
        return Err(format!("mutation with probability 0 changed its input{}", desc()));
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx, cfg: GenCfg, steps: usize) -> Result<(), String> {
    let spec = Spec(gen_spec(t, &cfg));
    let yaml = to_yaml(&spec.0);
    history(t, ctx, &spec.clone(), steps, &mut |ev, ctx| {
        if let Ev::Mutated { src, out, prob, scale } = ev {
            let mut info = StepInfo::default();
            judge_mutation(&spec.0, src, out, *prob, *scale, false, &mut info)?;
            for (n, what) in [
                (info.grown, "a map grew"),
                (info.shrunk, "a map shrank"),
                (info.switched, "a variant was switched"),
                (info.materialised, "an optional was materialised"),
                (info.maps_in_new_part, "a map inside a part that came into existence in this mutation"),
            ] {
                if n > 0 {
                    ctx.label(what);
                    ctx.num(what, n as u64);
                }
            }
            if info.grown + info.shrunk + info.switched + info.materialised > 0 {
                ctx.nontrivial(&format!("{}{}{}", yaml, show(src), show(out)));
                ctx.sample(|| json!({"spec": yaml, "input": show(src), "output": show(out), "prob": prob, "scale": scale}));
            }
            if *prob == 0.0 {
                ctx.label("probability 0");
            }
            if *prob == 1.0 {
                ctx.label("probability 1");
            }
        }
        Ok(())
    })
}

fn general(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 30), ..GenCfg::default() };
    let steps = t.usize(1, 60);
    run(t, ctx, cfg, steps)
}

/// Maps under maps, variants, optionals and arrays.
fn nested_maps(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    fn node(t: &mut Tape, depth: usize) -> Node {
        let leaf = |t: &mut Tape| match t.below(3) {
            0 => Node::Bool { init: false },
            1 => Node::Real { init: 1.0, scale: 1.0, min: None, max: None },
            _ => Node::Const,
        };
        if depth == 0 {
            return leaf(t);
        }
        match t.weighted(&[6, 3, 3, 2, 2, 1]) {
            0 => {
                let (init_size, min_size, max_size) = gen_sizes(t);
                Node::AnonMap { value_type: Box::new(node(t, depth - 1)), init_size: init_size.min(5).max(min_size.unwrap_or(0)), min_size, max_size }
            }
            1 => Node::Optional { value_type: Box::new(node(t, depth - 1)), init_present: t.chance(1, 2) },
            2 => {
                let a = node(t, depth - 1);
                let b = node(t, depth - 1);
                Node::Variant {
                    map: [("a".to_string(), Box::new(a)), ("b".to_string(), Box::new(b))].into_iter().collect(),
                    init: t.pick(&["a", "b"]).to_string(),
                }
            }
            3 => Node::Array { value_type: Box::new(node(t, depth - 1)), size: 2 },
            4 => {
                let a = node(t, depth - 1);
                let b = node(t, depth - 1);
                Node::Sub { map: [("p".to_string(), Box::new(a)), ("optional".to_string(), Box::new(b))].into_iter().collect() }
            }
            _ => leaf(t),
        }
    }
    let depth = t.usize(1, 4);
    let spec = Spec(node(t, depth));
    let steps = t.usize(1, 80);
    let yaml = to_yaml(&spec.0);
    history(t, ctx, &spec.clone(), steps, &mut |ev, ctx| {
        if let Ev::Mutated { src, out, prob, scale } = ev {
            let mut info = StepInfo::default();
            judge_mutation(&spec.0, src, out, *prob, *scale, false, &mut info)?;
            if info.grown + info.shrunk > 0 {
                ctx.nontrivial(&format!("{}{}{}", yaml, show(src), show(out)));
                ctx.sample(|| json!({"spec": yaml, "input": show(src), "output": show(out), "prob": prob}));
            }
            if info.grown > 0 {
                ctx.label("a map grew");
            }
            if info.maps_in_new_part > 0 {
                ctx.label("a map inside a part that came into existence in this mutation");
            }
        }
        Ok(())
    })
}

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        families: vec![
            Family::new("general", 500000, 8000000, general, "a generated spec and a history of mutations and recombinations sharing one path context (as in a run), probabilities in [0,1] with 0 and 1 frequent, scales 5e-324..1e200; oracle: the reachable-outcome relation of one mutation; non-trivial: a map was resized, a variant switched or an optional materialised"),
            Family::new("nested_maps", 300000, 5000000, nested_maps, "resizable maps nested in maps, variants, optionals and arrays, long histories; same relation; non-trivial: a map was resized"),
        ],
        assumptions: vec![
            "keys of the value a history starts from are registered with the path context, as a run does for its initial value; all later values come from the operators themselves",
            "a number is taken to be a mutation of its source if it lies within 1e18 steps (declared scale times mutation scale) of it",
        ],
    }
}
