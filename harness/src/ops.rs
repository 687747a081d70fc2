//! Oracles and histories for the operators `mutation::mutate` and `Crossover::crossover`.

use crate::engine::{catch, Ctx};
use crate::model::*;
use crate::tape::Tape;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation;
use cambrian::spec::{Node, Spec};
use cambrian::value::{Node as V, Value};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::BTreeSet;

/// Bit-exact equality (so -0.0 differs from 0.0 and the sign of zero cannot hide a change).
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Real(x), V::Real(y)) => x.to_bits() == y.to_bits(),
        (V::Int(x), V::Int(y)) => x == y,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Sub(x), V::Sub(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        (V::AnonMap(x), V::AnonMap(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w)))
        }
        (V::Variant(k, v), V::Variant(l, w)) => k == l && same(v, w),
        (V::Enum(x), V::Enum(y)) => x == y,
        (V::Optional(None), V::Optional(None)) => true,
        (V::Optional(Some(x)), V::Optional(Some(y))) => same(x, y),
        (V::Const, V::Const) => true,
        _ => false,
    }
}

/// Text of a value with sorted keys.
pub fn show(v: &V) -> String {
    match v {
        V::Real(x) => format!("{:?}", x),
        V::Sub(m) => {
            let mut k: Vec<_> = m.keys().collect();
            k.sort();
            format!("{{{}}}", k.iter().map(|k| format!("{:?}: {}", k, show(&m[*k]))).collect::<Vec<_>>().join(", "))
        }
        V::AnonMap(m) => {
            let mut k: Vec<_> = m.keys().collect();
            k.sort();
            format!("<{}>", k.iter().map(|k| format!("{}: {}", k, show(&m[*k]))).collect::<Vec<_>>().join(", "))
        }
        V::Array(a) => format!("[{}]", a.iter().map(|v| show(v)).collect::<Vec<_>>().join(", ")),
        V::Variant(k, v) => format!("{:?}!{}", k, show(v)),
        V::Optional(Some(v)) => format!("some({})", show(v)),
        V::Optional(None) => "none".into(),
        V::Enum(s) => format!("{:?}", s),
        V::Int(i) => i.to_string(),
        V::Bool(b) => b.to_string(),
        V::Const => "const".into(),
    }
}

// ------------------------------------------------------------ provenance of recombination

pub fn provenance(spec: &Node, parents: &[&V], child: &V, path: &str) -> Result<(), String> {
    let fail = |m: String| Err(format!("at {}: {}", if path.is_empty() { "(root)" } else { path }, m));
    if parents.is_empty() {
        return fail("no parent has this part".into());
    }
    match spec {
        Node::Real { .. } | Node::Int { .. } | Node::Bool { .. } | Node::Enum { .. } | Node::Const => {
            if parents.iter().any(|p| same(p, child)) {
                Ok(())
            } else {
                fail(format!(
                    "{} is not the value of any parent sharing this position ({})",
                    show(child),
                    parents.iter().map(|p| show(p)).collect::<Vec<_>>().join(", ")
                ))
            }
        }
        Node::Sub { map } => {
            let V::Sub(c) = child else { return fail("not a sub".into()) };
            for k in c.keys() {
                if !map.contains_key(k) {
                    return fail(format!("key {:?} comes from no parent", k));
                }
            }
            for (k, s) in sorted(map) {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::Sub(m) = p { m.get(k).map(|b| b.as_ref()) } else { None })
                    .collect();
                match c.get(k) {
                    None => return fail(format!("key {:?} is lost", k)),
                    Some(v) => provenance(s, &ps, v, &format!("{}/{}", path, k))?,
                }
            }
            Ok(())
        }
        Node::Array { value_type, .. } => {
            let V::Array(c) = child else { return fail("not an array".into()) };
            for p in parents {
                if let V::Array(a) = p {
                    if a.len() != c.len() {
                        return fail(format!("array of {} from an array of {}", c.len(), a.len()));
                    }
                }
            }
            for (i, v) in c.iter().enumerate() {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::Array(a) = p { a.get(i).map(|b| b.as_ref()) } else { None })
                    .collect();
                provenance(value_type, &ps, v, &format!("{}/{}", path, i))?;
            }
            Ok(())
        }
        Node::AnonMap { value_type, .. } => {
            let V::AnonMap(c) = child else { return fail("not a map".into()) };
            let keys: BTreeSet<usize> = c.keys().copied().collect();
            for k in keys {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::AnonMap(m) = p { m.get(&k).map(|b| b.as_ref()) } else { None })
                    .collect();
                if ps.is_empty() {
                    return fail(format!("map key {} comes from no parent", k));
                }
                provenance(value_type, &ps, &c[&k], &format!("{}/{}", path, k))?;
            }
            Ok(())
        }
        Node::Variant { map, .. } => {
            let V::Variant(n, v) = child else { return fail("not a variant".into()) };
            let ps: Vec<&V> = parents
                .iter()
                .filter_map(|p| match p {
                    V::Variant(k, w) if k == n => Some(w.as_ref()),
                    _ => None,
                })
                .collect();
            if ps.is_empty() {
                return fail(format!("option {:?} comes from no parent", n));
            }
            match map.get(n) {
                Some(s) => provenance(s, &ps, v, &format!("{}/{}", path, n)),
                None => fail(format!("undeclared option {:?}", n)),
            }
        }
        Node::Optional { value_type, .. } => match child {
            V::Optional(None) => {
                if parents.iter().any(|p| matches!(p, V::Optional(None))) {
                    Ok(())
                } else {
                    fail("absent in the offspring but present in every parent".into())
                }
            }
            V::Optional(Some(v)) => {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| match p {
                        V::Optional(Some(w)) => Some(w.as_ref()),
                        _ => None,
                    })
                    .collect();
                if ps.is_empty() {
                    return fail("present in the offspring but absent in every parent".into());
                }
                provenance(value_type, &ps, v, &format!("{}/?", path))
            }
            _ => fail("not an optional".into()),
        },
    }
}

// ------------------------------------------------------------ reachability by one mutation

#[derive(Clone, Copy)]
pub struct StepCfg {
    /// mutation probability is exactly 0
    pub never: bool,
    /// mutation probability is exactly 1
    pub always: bool,
    /// the mutation scale: a number cannot move by more than 1e18 steps of that size
    pub mscale: f64,
    /// at probability 1 also demand that booleans, enums, variants and optionals change
    pub live: bool,
}

#[derive(Default)]
pub struct StepInfo {
    pub grown: usize,
    pub shrunk: usize,
    pub switched: usize,
    pub materialised: usize,
    pub maps: usize,
    pub maps_in_new_part: usize,
    /// (position, changed) for every number that has a known source
    pub numbers: Vec<(String, bool)>,
}

fn close(a: f64, b: f64, step: f64) -> bool {
    a == b || (a - b).abs() <= 1e18 * step + 1e-120 + 1e-12 * a.abs().max(b.abs())
}

/// Can `out` result from one mutation of `src`?
pub fn step(spec: &Node, src: &V, out: &V, c: StepCfg, path: &str, info: &mut StepInfo, fresh: bool) -> Result<(), String> {
    let fail = |m: String| Err(format!("at {}: {}", if path.is_empty() { "(root)" } else { path }, m));
    match (spec, src, out) {
        (Node::Real { scale, .. }, V::Real(a), V::Real(b)) => {
            info.numbers.push((format!("{}{}", if fresh { "*" } else { "" }, path), a.to_bits() != b.to_bits()));
            if c.never && a.to_bits() != b.to_bits() {
                return fail(format!("real {:?} became {:?} at probability 0", a, b));
            }
            if !close(*a, *b, scale * c.mscale) {
                return fail(format!("real {:?} instead of {:?} although the step size is {:e}", b, a, scale * c.mscale));
            }
            Ok(())
        }
        (Node::Int { scale, .. }, V::Int(a), V::Int(b)) => {
            info.numbers.push((format!("{}{}", if fresh { "*" } else { "" }, path), a != b));
            if c.never && a != b {
                return fail(format!("int {} became {} at probability 0", a, b));
            }
            let step = scale * c.mscale;
            let still = step < 1e-20 && a.unsigned_abs() <= 1 << 53;
            if a != b && (still || !close(*a as f64, *b as f64, step + 1e-18)) {
                return fail(format!("int {} instead of {} although the step size is {:e}", b, a, step));
            }
            Ok(())
        }
        (Node::Bool { .. }, V::Bool(a), V::Bool(b)) => {
            if c.never && a != b {
                return fail("boolean flipped at probability 0".into());
            }
            if c.always && c.live && a == b {
                return fail("boolean not flipped at probability 1".into());
            }
            Ok(())
        }
        (Node::Enum { .. }, V::Enum(a), V::Enum(b)) => {
            if c.never && a != b {
                return fail(format!("enum {:?} became {:?} at probability 0", a, b));
            }
            if c.always && c.live && a == b {
                return fail("enum not changed at probability 1".into());
            }
            Ok(())
        }
        (Node::Const, V::Const, V::Const) => Ok(()),
        (Node::Sub { map }, V::Sub(a), V::Sub(b)) => {
            if a.len() != b.len() {
                return fail(format!("{} keys became {}", a.len(), b.len()));
            }
            for (k, s) in sorted(map) {
                match (a.get(k), b.get(k)) {
                    (Some(x), Some(y)) => step(s, x, y, c, &format!("{}/{}", path, k), info, fresh)?,
                    _ => return fail(format!("key {:?} lost", k)),
                }
            }
            Ok(())
        }
        (Node::Array { value_type, .. }, V::Array(a), V::Array(b)) => {
            if a.len() != b.len() {
                return fail(format!("array of {} became an array of {}", a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                step(value_type, x, y, c, &format!("{}/{}", path, i), info, fresh)?;
            }
            Ok(())
        }
        (Node::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(a), V::AnonMap(b)) => {
            info.maps += 1;
            if fresh {
                info.maps_in_new_part += 1;
            }
            let ka: BTreeSet<usize> = a.keys().copied().collect();
            let kb: BTreeSet<usize> = b.keys().copied().collect();
            let gone: Vec<_> = ka.difference(&kb).collect();
            let new: Vec<_> = kb.difference(&ka).collect();
            let d = gone.len() + new.len();
            if d > 1 {
                return fail(format!(
                    "one mutation turned the keys {:?} into {:?} ({} removed, {} added)",
                    ka,
                    kb,
                    gone.len(),
                    new.len()
                ));
            }
            if c.never && d != 0 {
                return fail(format!("map {:?} resized to {:?} at probability 0", ka, kb));
            }
            let pinned = min_size.map_or(false, |m| ka.len() <= m) && max_size.map_or(false, |m| ka.len() >= m);
            if c.always && d == 0 && !pinned {
                return fail(format!(
                    "map with keys {:?} (bounds {:?}..{:?}) not resized at probability 1: keys afterwards {:?}",
                    ka, min_size, max_size, kb
                ));
            }
            info.grown += new.len();
            info.shrunk += gone.len();
            // an added element is a copy of another one, or starts from the declared initial value
            for k in &new {
                let at = format!("{}/{}", path, k);
                let mut why = String::new();
                let init = init_value(value_type);
                let mut found = false;
                for from in a.values().map(|v| &**v).chain([&init]) {
                    let mut seen = StepInfo::default();
                    match step(value_type, from, &b[k], c, &at, &mut seen, true) {
                        Ok(()) => {
                            info.maps_in_new_part += seen.maps_in_new_part;
                            found = true;
                            break;
                        }
                        Err(m) => why = m,
                    }
                }
                if !found {
                    return fail(format!(
                        "the added element {} is not one mutation away from any other element or the initial value ({})",
                        k, why
                    ));
                }
            }
            for k in ka.intersection(&kb) {
                step(value_type, &a[k], &b[k], c, &format!("{}/{}", path, k), info, fresh)?;
            }
            Ok(())
        }
        (Node::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => {
            if n == m {
                if c.always && c.live {
                    return fail(format!("variant {:?} not switched at probability 1", n));
                }
                return step(&map[n], x, y, c, &format!("{}/{}", path, n), info, fresh);
            }
            if c.never {
                return fail(format!("variant {:?} switched to {:?} at probability 0", n, m));
            }
            info.switched += 1;
            let Some(s) = map.get(m) else { return fail(format!("undeclared option {:?}", m)) };
            step(s, &init_value(s), y, c, &format!("{}/{}", path, m), info, true)
                .map_err(|e| format!("switched from {:?} to {:?}, which starts from its initial value: {}", n, m, e))
        }
        (Node::Optional { value_type, .. }, V::Optional(x), V::Optional(y)) => match (x, y) {
            (None, None) => {
                if c.always && c.live {
                    return fail("absent optional stays absent at probability 1".into());
                }
                Ok(())
            }
            (Some(_), None) => {
                if c.never {
                    return fail("optional dropped at probability 0".into());
                }
                Ok(())
            }
            (None, Some(y)) => {
                if c.never {
                    return fail("optional materialised at probability 0".into());
                }
                info.materialised += 1;
                step(value_type, &init_value(value_type), y, c, &format!("{}/?", path), info, true)
                    .map_err(|e| format!("materialised optional starts from its initial value: {}", e))
            }
            (Some(x), Some(y)) => {
                if c.always && c.live {
                    return fail("present optional stays present at probability 1".into());
                }
                step(value_type, x, y, c, &format!("{}/?", path), info, fresh)
            }
        },
        _ => fail(format!("a {} became a {}", vkind(src), vkind(out))),
    }
}

// ------------------------------------------------------------ histories

type MutFn<T> = fn(&Spec, &Value, &MutationParams, &mut T, &mut StdRng) -> Value;

/// A path context (its type is not nameable from outside).
pub fn new_ctx<T: Default>(_: MutFn<T>) -> T {
    T::default()
}

pub fn gen_prob(t: &mut Tape) -> f64 {
    match t.weighted(&[2, 2, 3, 2]) {
        0 => 0.0,
        1 => 1.0,
        2 => t.unit(),
        _ => *t.pick(&[0.5, 0.1, 0.9, 1e-9, 1e-300, 5e-324, 1.0 - 1e-16, 0.99]),
    }
}

pub fn gen_mscale(t: &mut Tape) -> f64 {
    match t.weighted(&[4, 4, 2]) {
        0 => 1.0,
        1 => (1.0 + 9.0 * t.unit()) * 10f64.powi(t.range(-12, 12) as i32),
        _ => *t.pick(&[1e-300, 1e100, 5e-324, 1e-30, 1e30, 1e200]),
    }
}

pub enum Ev<'a> {
    Mutated { src: &'a V, out: &'a V, prob: f64, scale: f64 },
    Crossed { parents: Vec<&'a V>, out: &'a V, prob: f64, pressure: f64 },
}

/// One history of the two operators over a growing pool, sharing one path context as a run does.
/// The pool starts from the initial value (registered once, as a run does).
pub fn history(
    t: &mut Tape,
    ctx: &mut Ctx,
    spec: &Spec,
    steps: usize,
    judge: &mut dyn FnMut(&Ev, &mut Ctx) -> Result<(), String>,
) -> Result<(), String> {
    let mut pctx = new_ctx(mutation::mutate);
    let mut rng = StdRng::seed_from_u64(t.u64());
    let guess = t.chance(1, 2);
    let first = if guess { Value(gen_value(t, &spec.0)) } else { spec.initial_value() };
    ctx.label(if guess { "starts from a guess" } else { "starts from the initial value" });
    pctx.add_nodes_for(&first);
    let mut pool: Vec<Value> = vec![first];
    // a run often applies crossover then mutation; parameters often stay the same for a while
    let mut prob = gen_prob(t);
    let mut scale = gen_mscale(t);
    for _ in 0..steps {
        if t.chance(1, 3) {
            prob = gen_prob(t);
            scale = gen_mscale(t);
        }
        let i = if t.chance(1, 2) { pool.len() - 1 } else { t.below(pool.len() as u64) as usize };
        if t.chance(2, 3) || pool.len() < 2 {
            let mp = MutationParams { mutation_prob: prob, mutation_scale: scale };
            let out = catch(|| mutation::mutate(spec, &pool[i], &mp, &mut pctx, &mut rng)).map_err(|e| {
                format!("mutate: {} (value {}, probability {}, scale {})", e, show(&pool[i].0), prob, scale)
            })?;
            judge(&Ev::Mutated { src: &pool[i].0, out: &out.0, prob, scale }, ctx)?;
            pool.push(out);
        } else {
            let n = t.usize(1, 8);
            let idx: Vec<usize> = (0..n).map(|_| t.below(pool.len() as u64) as usize).collect();
            let cp = CrossoverParams { crossover_prob: gen_prob(t), selection_pressure: gen_prob(t) };
            let parents: Vec<&Value> = idx.iter().map(|i| &pool[*i]).collect();
            let out = catch(|| Crossover::new().crossover(spec, &parents, &cp, &mut pctx, &mut rng)).map_err(|e| {
                format!("crossover: {} (parents {})", e, parents.iter().map(|p| show(&p.0)).collect::<Vec<_>>().join(" | "))
            })?;
            judge(
                &Ev::Crossed {
                    parents: parents.iter().map(|p| &p.0).collect(),
                    out: &out.0,
                    prob: cp.crossover_prob,
                    pressure: cp.selection_pressure,
                },
                ctx,
            )?;
            pool.push(out);
        }
        if pool.len() > 12 {
            pool.remove(0);
        }
    }
    Ok(())
}
