use crate::drive::*;
use crate::engine::{catch, Check, Ctx, Family};
use crate::model::*;
use crate::ops::*;
use crate::tape::Tape;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation;
use cambrian::spec::{Node, Spec};
use cambrian::value::{Node as V, Value};
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::json;
use std::collections::BTreeMap;

// ------------------------------------------------------------ liveness of mutation

/// Scales of at least 1 and magnitudes at which a step of that size is visible.
fn tame(spec: &mut Node) {
    match spec {
        Node::Real { init, scale, min, max } => {
            let ok = |v: &f64| v.abs() <= 1e6;
            if !(ok(init) && min.as_ref().map_or(true, ok) && max.as_ref().map_or(true, ok)) || min.zip(*max).map_or(false, |(a, b)| b - a < 1e-3) {
                *init = 1.0;
                *min = Some(-2.0);
                *max = None;
            }
            *scale = scale.clamp(1.0, 1e3);
        }
        Node::Int { init, scale, min, max } => {
            let ok = |v: &i64| v.unsigned_abs() <= 1_000_000;
            if !(ok(init) && min.as_ref().map_or(true, ok) && max.as_ref().map_or(true, ok)) {
                *init = 1;
                *min = None;
                *max = Some(5);
            }
            *scale = scale.clamp(1.0, 1e3);
        }
        Node::Sub { map } => map.values_mut().for_each(|s| tame(s)),
        Node::Variant { map, .. } => map.values_mut().for_each(|s| tame(s)),
        Node::Array { value_type, .. } | Node::AnonMap { value_type, .. } | Node::Optional { value_type, .. } => tame(value_type),
        _ => {}
    }
}

/// Numbers are kept where `tame` allows.
fn tame_value(spec: &Node, v: &mut V) {
    match (spec, v) {
        (Node::Real { init, .. }, V::Real(x)) => {
            if x.abs() > 1e6 {
                *x = *init
            }
        }
        (Node::Int { init, .. }, V::Int(x)) => {
            if x.unsigned_abs() > 1_000_000 {
                *x = *init
            }
        }
        (Node::Sub { map }, V::Sub(m)) => m.iter_mut().for_each(|(k, e)| tame_value(&map[k], e)),
        (Node::Variant { map, .. }, V::Variant(k, e)) => tame_value(&map[k.as_str()], e),
        (Node::Array { value_type, .. }, V::Array(a)) => a.iter_mut().for_each(|e| tame_value(value_type, e)),
        (Node::AnonMap { value_type, .. }, V::AnonMap(m)) => m.values_mut().for_each(|e| tame_value(value_type, e)),
        (Node::Optional { value_type, .. }, V::Optional(Some(e))) => tame_value(value_type, e),
        _ => {}
    }
}

const ATTEMPTS: usize = 90;
const SEEN: usize = 60;

fn liveness(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 24), extremes: false, dup_enum: false, ..GenCfg::default() };
    let mut node = gen_spec(t, &cfg);
    tame(&mut node);
    let spec = Spec(node);
    let mut v = if t.chance(1, 3) { init_value(&spec.0) } else { gen_value(t, &spec.0) };
    tame_value(&spec.0, &mut v);
    let v = Value(v);
    let mut pctx = new_ctx(mutation::mutate);
    pctx.add_nodes_for(&v);
    let mut rng = StdRng::seed_from_u64(t.u64());
    let mp = MutationParams { mutation_prob: 1.0, mutation_scale: *t.pick(&[1.0, 1.0, 1.0, 5.0, 60.0, 1e4, 1e-3, 1e-12]) };
    // below 1 the steps of numbers may be invisible
    let numbers = mp.mutation_scale >= 1.0;
    let yaml = to_yaml(&spec.0);
    let mut seen: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..ATTEMPTS {
        let out = catch(|| mutation::mutate(&spec, &v, &mp, &mut pctx, &mut rng)).map_err(|e| format!("mutate: {}\nspec: {}", e, yaml))?;
        let mut info = StepInfo::default();
        let c = StepCfg { never: false, always: true, mscale: mp.mutation_scale, live: true };
        step(&spec.0, &v.0, &out.0, c, "", &mut info, false)
            .map_err(|m| format!("mutation with probability 1: {}\nspec: {}\ninput:  {}\noutput: {}", m, yaml, show(&v.0), show(&out.0)))?;
        for (p, changed) in info.numbers {
            let e = seen.entry(p).or_default();
            e.0 += 1;
            e.1 += changed as usize;
        }
    }
    for (p, (n, changed)) in &seen {
        if numbers && *n >= SEEN && *changed == 0 {
            return Err(format!(
                "the number at {} never changed in {} mutations with probability 1 and a scale of at least 1\nspec: {}\nvalue: {}",
                p,
                n,
                yaml,
                show(&v.0)
            ));
        }
        if numbers && *n >= SEEN {
            kinds.insert("a number was watched");
        }
        if p.starts_with('*') && *n >= SEEN {
            kinds.insert("a number in a part that came into existence was watched");
        }
    }
    for k in kinds {
        ctx.label(k);
    }
    let mut ks = Default::default();
    kinds_in(&spec.0, &mut ks);
    for k in &ks {
        ctx.label(format!("has {}", k));
    }
    if ks.iter().any(|k| *k != "const" && *k != "sub" && *k != "array") {
        ctx.nontrivial(&format!("{}{}", yaml, show(&v.0)));
        ctx.sample(|| json!({"spec": yaml, "value": show(&v.0), "numbers": seen.iter().map(|(p, (n, c))| format!("{}: changed {} of {}", p, c, n)).collect::<Vec<_>>()}));
    }
    Ok(())
}

// ------------------------------------------------------------ every alternative is reached

/// The position under test, put somewhere inside a spec; `fixed` if it must not be reset on the way.
fn put(t: &mut Tape, depth: usize, fixed: bool, inner: Node, v: V) -> (Node, V) {
    fn b<T>(x: T) -> Box<T> {
        Box::new(x)
    }
    if depth == 0 {
        return (inner, v);
    }
    let (inner, v) = put(t, depth - 1, fixed, inner, v);
    match if fixed { *t.pick(&[0, 4]) } else { t.below(5) } {
        0 => {
            let n = t.usize(2, 6);
            let at = t.below(n as u64) as usize;
            let a = (0..n).map(|i| b(if i == at { v.clone() } else { init_value(&inner) })).collect();
            (Node::Array { size: n, value_type: b(inner) }, V::Array(a))
        }
        1 => (Node::Optional { value_type: b(inner), init_present: true }, V::Optional(Some(b(v)))),
        2 => {
            let n = t.usize(1, 4);
            let at = t.below(n as u64) as usize;
            let a = (0..n).map(|i| (if t.chance(1, 4) { i + 1000 } else { i }, b(if i == at { v.clone() } else { init_value(&inner) }))).collect();
            (Node::AnonMap { value_type: b(inner), init_size: 1, min_size: None, max_size: None }, V::AnonMap(a))
        }
        3 => {
            let names = gen_names(t, 3, true, |s| s != "type" && s != "init");
            let k = names[1].clone();
            let map = names.iter().map(|n| (n.clone(), b(if *n == k { inner.clone() } else { Node::Const }))).collect();
            (Node::Variant { map, init: names[0].clone() }, V::Variant(k, b(v)))
        }
        _ => {
            let names = gen_names(t, 3, true, |s| s != "type" && !s.starts_with("typeDef "));
            let k = names[1].clone();
            let map = names.iter().map(|n| (n.clone(), b(if *n == k { inner.clone() } else { Node::Bool { init: false } }))).collect();
            let vals = names.iter().map(|n| (n.clone(), b(if *n == k { v.clone() } else { V::Bool(false) }))).collect();
            (Node::Sub { map }, V::Sub(vals))
        }
    }
}

/// What is found where `put` put it, if it is still there.
fn outcomes(spec: &Node, inner: &Node, v: &V, acc: &mut std::collections::BTreeSet<String>) {
    if std::ptr::eq(spec, inner) || spec == inner {
        acc.insert(match v {
            V::Enum(e) => e.clone(),
            V::Variant(k, _) => k.clone(),
            V::Bool(x) => x.to_string(),
            V::Optional(o) => o.is_some().to_string(),
            V::AnonMap(m) => m.len().to_string(),
            _ => String::new(),
        });
        return;
    }
    match (spec, v) {
        (Node::Sub { map }, V::Sub(m)) => m.iter().for_each(|(k, e)| outcomes(&map[k], inner, e, acc)),
        (Node::Variant { map, .. }, V::Variant(k, e)) => outcomes(&map[k.as_str()], inner, e, acc),
        (Node::Array { value_type, .. }, V::Array(a)) => a.iter().for_each(|e| outcomes(value_type, inner, e, acc)),
        (Node::AnonMap { value_type, .. }, V::AnonMap(m)) => m.values().for_each(|e| outcomes(value_type, inner, e, acc)),
        (Node::Optional { value_type, .. }, V::Optional(Some(e))) => outcomes(value_type, inner, e, acc),
        _ => {}
    }
}

/// From any value, a walk of mutations visits every alternative: an optimum may be in any of them.
fn reach(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    fn b<T>(x: T) -> Box<T> {
        Box::new(x)
    }
    let n = t.usize(2, 8);
    let names = gen_names(t, n, true, |s| s != "type" && s != "init");
    let start = t.pick(&names).clone();
    let (inner, v, want): (Node, V, Vec<String>) = match t.below(4) {
        0 => (Node::Enum { values: names.clone(), init: t.pick(&names).clone() }, V::Enum(start), names.clone()),
        1 => (
            Node::Variant { init: t.pick(&names).clone(), map: names.iter().map(|k| (k.clone(), b(Node::Const))).collect() },
            V::Variant(start, b(V::Const)),
            names.clone(),
        ),
        2 => (
            Node::Optional { value_type: b(Node::Real { init: 0.5, scale: 1.0, min: Some(0.0), max: Some(1.0) }), init_present: t.chance(1, 2) },
            V::Optional(if t.chance(1, 2) { Some(b(V::Real(0.25))) } else { None }),
            vec!["false".into(), "true".into()],
        ),
        _ => {
            let lo = t.usize(0, 3);
            let hi = lo + t.usize(1, 5);
            let at = t.usize(lo, hi);
            (
                Node::AnonMap { value_type: b(Node::Const), init_size: t.usize(lo, hi), min_size: Some(lo), max_size: Some(hi) },
                V::AnonMap((0..at).map(|i| (i * 3, b(V::Const))).collect()),
                (lo..=hi).map(|x| x.to_string()).collect(),
            )
        }
    };
    let depth = t.usize(0, 3);
    let kind_name = kind(&inner);
    let (spec, v0) = put(t, depth, matches!(inner, Node::AnonMap { .. }), inner.clone(), v);
    let spec = Spec(spec);
    let mut pctx = new_ctx(mutation::mutate);
    let mut rng = StdRng::seed_from_u64(t.u64());
    let mut seen = std::collections::BTreeSet::new();
    outcomes(&spec.0, &inner, &v0, &mut seen);
    // with probability 1 what lies inside an optional or variant is always new and never initial
    let p = if depth == 0 { *t.pick(&[1.0, 1.0, 0.8, 0.5]) } else { *t.pick(&[0.5, 0.4, 0.3]) };
    let mp = MutationParams { mutation_prob: p, mutation_scale: *t.pick(&[1.0, 1.0, 10.0, 1e-3]) };
    let yaml = to_yaml(&spec.0);
    // a walk is restarted now and then, as containers on the way may come and go
    let steps = 25_000;
    let mut cur = Value(v0.clone());
    let mut used = 0;
    for i in 0..steps {
        if i % 25 == 0 {
            cur = Value(v0.clone());
        }
        pctx.add_nodes_for(&cur);
        cur = catch(|| mutation::mutate(&spec, &cur, &mp, &mut pctx, &mut rng)).map_err(|e| format!("mutate: {}\nspec: {}", e, yaml))?;
        outcomes(&spec.0, &inner, &cur.0, &mut seen);
        used = i + 1;
        if want.iter().all(|w| seen.contains(w)) {
            break;
        }
    }
    ctx.label(format!("{} at depth {}", kind_name, depth));
    ctx.num("mutations", used as u64);
    let missing: Vec<&String> = want.iter().filter(|w| !seen.contains(*w)).collect();
    if !missing.is_empty() {
        return Err(format!(
            "an {} never becomes {:?} in {} mutations with probability {} (walks of 25 from the same value), only {:?}\nspec: {}\nvalue: {}",
            kind_name, missing, steps, p, seen, yaml, show(&v0)
        ));
    }
    ctx.nontrivial(&format!("{}{}", yaml, show(&v0)));
    ctx.sample(|| json!({"spec": yaml, "value": show(&v0), "alternatives": want, "mutations": used}));
    Ok(())
}

// ------------------------------------------------------------ recombination mixes

/// A structure of positions in which parents can differ.
fn wide(t: &mut Tape, depth: usize) -> Node {
    let leaf = |t: &mut Tape| match t.below(6) {
        0 | 1 => Node::Real { init: 0.0, scale: 1.0, min: None, max: None },
        2 => Node::Int { init: 0, scale: 1.0, min: None, max: None },
        3 => Node::Enum { values: (0..7).map(|i| format!("v{}", i)).collect(), init: "v0".into() },
        4 => Node::Bool { init: t.chance(1, 2) },
        _ => match t.below(4) {
            0 => Node::Optional { value_type: Box::new(Node::Bool { init: false }), init_present: t.chance(1, 2) },
            1 => Node::Variant {
                init: "a".into(),
                map: ["a", "b", "c"].iter().map(|k| (k.to_string(), Box::new(Node::Const))).collect(),
            },
            2 => Node::AnonMap { value_type: Box::new(Node::Const), init_size: 1, min_size: None, max_size: None },
            _ => Node::Bool { init: t.chance(1, 2) },
        },
    };
    // all positions of one kind, now and then
    let uniform = if t.chance(1, 3) { Some(leaf(t)) } else { None };
    let inner = |t: &mut Tape| match &uniform {
        Some(n) => n.clone(),
        None if depth > 0 => wide(t, depth - 1),
        None => leaf(t),
    };
    match t.below(6) {
        0 | 5 => {
            let n = t.usize(2, 6);
            Node::Sub { map: (0..n).map(|i| (format!("k{}", i), Box::new(inner(t)))).collect() }
        }
        1 => Node::Array { size: t.usize(2, 6), value_type: Box::new(inner(t)) },
        2 => Node::AnonMap { value_type: Box::new(inner(t)), init_size: t.usize(1, 4), min_size: None, max_size: None },
        3 => Node::Optional { value_type: Box::new(Node::Array { size: t.usize(2, 4), value_type: Box::new(inner(t)) }), init_present: true },
        _ => Node::Variant {
            init: "a".into(),
            map: [
                ("a".to_string(), Box::new(Node::Array { size: t.usize(2, 4), value_type: Box::new(inner(t)) })),
                ("b".to_string(), Box::new(Node::Const)),
            ]
            .into_iter()
            .collect(),
        },
    }
}

/// A variation of `v` that differs from it in every leaf and, where `turn` says so, in structure.
/// All variations with one `turn` have the same structure.
fn varied(spec: &Node, v: &V, tag: i64, turn: u64, at: u64) -> V {
    let here = |k: u64| crate::tape::mix(turn, crate::tape::mix(at, k));
    match (spec, v) {
        (_, V::Real(x)) => V::Real(x + tag as f64),
        (_, V::Int(x)) => V::Int(x + tag),
        (_, V::Bool(b)) => V::Bool(!b),
        (Node::Enum { values, .. }, V::Enum(e)) => {
            let i = values.iter().position(|x| x == e).unwrap_or(0) as i64;
            V::Enum(values[((i + tag) % values.len() as i64) as usize].clone())
        }
        (Node::Sub { map }, V::Sub(m)) => V::Sub(
            sorted(map).into_iter().enumerate().map(|(i, (k, s))| (k.clone(), Box::new(varied(s, &m[k], tag, turn, here(i as u64))))).collect(),
        ),
        (Node::Array { value_type, .. }, V::Array(a)) => {
            V::Array(a.iter().enumerate().map(|(i, e)| Box::new(varied(value_type, e, tag, turn, here(i as u64)))).collect())
        }
        (Node::Variant { map, .. }, V::Variant(k, e)) => {
            if here(1) % 3 == 0 || matches!(**e, V::Const) {
                let other = sorted(map).keys().find(|n| ***n != *k).unwrap().to_string();
                let inner = init_value(&map[&other]);
                V::Variant(other, Box::new(inner))
            } else {
                V::Variant(k.clone(), Box::new(varied(&map[k.as_str()], e, tag, turn, here(2))))
            }
        }
        (Node::AnonMap { value_type, .. }, V::AnonMap(m)) => {
            let mut out = rustc_hash::FxHashMap::default();
            for (k, e) in m {
                if here(*k as u64) % 4 != 0 {
                    out.insert(*k, Box::new(varied(value_type, e, tag, turn, here(1000 + *k as u64))));
                }
            }
            if here(7) % 3 != 0 {
                out.insert(50, Box::new(varied(value_type, &init_value(value_type), tag, turn, here(8))));
            }
            V::AnonMap(out)
        }
        (Node::Optional { value_type, .. }, V::Optional(o)) => match o {
            Some(e) if here(1) % 3 != 0 => V::Optional(Some(Box::new(varied(value_type, e, tag, turn, here(2))))),
            Some(_) => V::Optional(None),
            None => V::Optional(Some(Box::new(init_value(value_type)))),
        },
        (_, v) => v.clone(),
    }
}

/// Where `best` and `other` differ, whether the offspring is as `best` is there.
fn origins(best: &V, other: &V, out: &V, path: String, acc: &mut Vec<(String, bool)>) {
    match (best, other, out) {
        (V::Sub(b), V::Sub(o), V::Sub(c)) => b.iter().for_each(|(k, e)| origins(e, &o[k], &c[k], format!("{}/{}", path, k), acc)),
        (V::Array(b), V::Array(o), V::Array(c)) => {
            (0..b.len()).for_each(|i| origins(&b[i], &o[i], &c[i], format!("{}/{}", path, i), acc))
        }
        (V::Variant(b, x), V::Variant(o, y), V::Variant(c, z)) => {
            if b != o {
                acc.push((format!("{}!", path), b == c));
            } else if b == c {
                origins(x, y, z, format!("{}/{}", path, b), acc);
            }
        }
        (V::Optional(b), V::Optional(o), V::Optional(c)) => match (b, o, c) {
            (Some(x), Some(y), Some(z)) => origins(x, y, z, format!("{}/?", path), acc),
            _ if b.is_some() != o.is_some() => acc.push((format!("{}?", path), b.is_some() == c.is_some())),
            _ => {}
        },
        (V::AnonMap(b), V::AnonMap(o), V::AnonMap(c)) => {
            let keys: std::collections::BTreeSet<usize> = b.keys().chain(o.keys()).copied().collect();
            for k in keys {
                match (b.get(&k), o.get(&k)) {
                    (Some(x), Some(y)) => {
                        if let Some(z) = c.get(&k) {
                            origins(x, y, z, format!("{}/{}", path, k), acc)
                        }
                    }
                    (x, _) => acc.push((format!("{}/{}+", path, k), x.is_some() == c.contains_key(&k))),
                }
            }
        }
        _ => {
            if !same(best, other) {
                acc.push((path, same(best, out)))
            }
        }
    }
}

fn mixing(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let depth = t.usize(0, 2);
    let spec = Spec(wide(t, depth));
    let n = t.usize(2, 5);
    let init = init_value(&spec.0);
    let turn = t.u64();
    let parents: Vec<Value> =
        (0..n).map(|i| Value(if i == 0 { init.clone() } else { varied(&spec.0, &init, i as i64, turn, 0) })).collect();
    let refs: Vec<&Value> = parents.iter().collect();
    let pressure = *t.pick(&[0.0, 0.3, 0.5, 0.7]);
    let cp = CrossoverParams { crossover_prob: 1.0, selection_pressure: pressure };
    let mut pctx = new_ctx(mutation::mutate);
    let mut rng = StdRng::seed_from_u64(t.u64());
    let yaml = to_yaml(&spec.0);
    let attempts = 160;
    let mut mixed = 0;
    // how often each position was present, and how often as in the best parent
    let mut at: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut pairs: BTreeMap<(String, String), (usize, usize)> = BTreeMap::new();
    let mut most = 0;
    let desc = || {
        format!(
            "recombinations with probability 1 (pressure {})\nspec: {}\nparents (best first):\n  {}",
            pressure,
            yaml,
            parents.iter().map(|p| show(&p.0)).collect::<Vec<_>>().join("\n  ")
        )
    };
    for _ in 0..attempts {
        let out = catch(|| Crossover::new().crossover(&spec, &refs, &cp, &mut pctx, &mut rng)).map_err(|e| format!("crossover: {}\nspec: {}", e, yaml))?;
        let mut ts = Vec::new();
        origins(&parents[0].0, &parents[1].0, &out.0, String::new(), &mut ts);
        ts.sort();
        mixed += ts.iter().any(|x| x.1 != ts[0].1) as usize;
        most = most.max(ts.len());
        for (p, from_best) in &ts {
            let e = at.entry(p.clone()).or_default();
            e.0 += 1;
            e.1 += *from_best as usize;
        }
        for w in ts.windows(2) {
            let e = pairs.entry((w[0].0.clone(), w[1].0.clone())).or_default();
            e.0 += 1;
            e.1 += (w[0].1 != w[1].1) as usize;
        }
    }
    if mixed == 0 && most > 1 {
        return Err(format!("{} offspring of differing parents are all as one parent; {}", attempts, desc()));
    }
    for (p, (seen, by_best)) in &at {
        // each side is picked with a probability of at least 0.15
        if *seen >= 120 && (*by_best == 0 || by_best == seen) {
            return Err(format!(
                "position {} always comes from {} in {} {}",
                p,
                if *by_best == 0 { "a parent other than the best" } else { "the best parent" },
                seen,
                desc()
            ));
        }
    }
    // neighbouring positions are decided independently
    for ((p, q), (seen, differ)) in &pairs {
        if *seen >= 150 && *differ == 0 {
            return Err(format!("positions {} and {} always come from the same side in {} {}", p, q, seen, desc()));
        }
    }
    let mut ks = Default::default();
    kinds_in(&spec.0, &mut ks);
    for k in &ks {
        ctx.label(format!("has {}", k));
    }
    if at.keys().any(|p| p.ends_with(['!', '?', '+'])) {
        ctx.label("parents of different structure");
    }
    if most > 1 {
        ctx.nontrivial(&format!("{}{}{}{}", yaml, n, pressure, turn));
        ctx.sample(|| json!({"parents": parents.iter().map(|p| show(&p.0)).collect::<Vec<_>>(), "pressure": pressure, "recombinations": attempts, "mixed": mixed}));
    }
    Ok(())
}

// ------------------------------------------------------------ selection favours better ranks

fn selection(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let kind = t.below(8);
    let odd = matches!(kind, 4 | 5 | 6);
    // the population has up to a hundred
    let n = if !odd && t.chance(1, 3) { t.usize(11, 128) } else { t.usize(1, 10) };
    let most = n.max(10);
    let pressure = match t.below(4) {
        0 => *t.pick(&[0.0, 1.0, 0.5, 0.9, 0.1, 0.01, 1e-9]),
        _ => t.unit(),
    };
    let draws = if ctx.thorough { 60000 } else { 20000 };
    let mut rng = StdRng::seed_from_u64(t.u64());
    let real = || Node::Real { init: 0.0, scale: 1.0, min: None, max: None };
    let two = || Node::Array { size: 2, value_type: Box::new(real()) };
    let (what, spec): (&str, Node) = match kind {
        0 => ("a real", real()),
        1 => ("an enum", Node::Enum { values: (0..most).map(|i| format!("v{}", i)).collect(), init: "v0".into() }),
        2 => ("a whole sub", Node::Sub { map: [("a".to_string(), Box::new(real())), ("b".to_string(), Box::new(real()))].into_iter().collect() }),
        3 => ("a variant's option", Node::Variant { map: (0..most).map(|i| (format!("o{}", i), Box::new(real()))).collect(), init: "o0".into() }),
        4 => ("an optional's presence", Node::Optional { value_type: Box::new(two()), init_present: true }),
        5 => ("a map's key", Node::AnonMap { value_type: Box::new(real()), init_size: 0, min_size: None, max_size: None }),
        6 => ("a boolean", Node::Bool { init: false }),
        _ => ("an integer in an array in a sub", Node::Sub {
            map: [("x".to_string(), Box::new(Node::Array { size: 1, value_type: Box::new(Node::Int { init: 0, scale: 1.0, min: None, max: None }) }))].into_iter().collect(),
        }),
    };
    let spec = Spec(spec);
    let cp = CrossoverParams { crossover_prob: if kind == 2 { 0.0 } else { 1.0 }, selection_pressure: pressure };
    let b = |v: V| Box::new(v);
    // how often rank i was picked
    let mut counts = vec![0usize; n];
    let mut pctx = new_ctx(mutation::mutate);
    if !odd {
        let make = |i: usize| -> V {
            match kind {
                0 => V::Real(i as f64),
                1 => V::Enum(format!("v{}", i)),
                2 => V::Sub([("a".to_string(), b(V::Real(i as f64))), ("b".to_string(), b(V::Real(-(i as f64))))].into_iter().collect()),
                3 => V::Variant(format!("o{}", i), b(V::Real(1.0))),
                _ => V::Sub([("x".to_string(), b(V::Array(vec![b(V::Int(i as i64))])))].into_iter().collect()),
            }
        };
        let parents: Vec<Value> = (0..n).map(|i| Value(make(i))).collect();
        let refs: Vec<&Value> = parents.iter().collect();
        for _ in 0..draws {
            let out = catch(|| Crossover::new().crossover(&spec, &refs, &cp, &mut pctx, &mut rng)).map_err(|e| format!("crossover: {}", e))?;
            match (0..n).find(|i| same(&parents[*i].0, &out.0)) {
                Some(i) => counts[i] += 1,
                None => return Err(format!("{}: {} is no parent's value", what, show(&out.0))),
            }
        }
    } else {
        // one parent differs from all others; its rank moves
        for i in 0..n {
            let make = |special: bool| -> V {
                match kind {
                    4 => V::Optional(if special { Some(b(V::Array(vec![b(V::Real(0.0)), b(V::Real(0.0))]))) } else { None }),
                    5 => V::AnonMap(if special { [(7usize, b(V::Real(0.0)))].into_iter().collect() } else { Default::default() }),
                    _ => V::Bool(special),
                }
            };
            let parents: Vec<Value> = (0..n).map(|j| Value(make(i == j))).collect();
            let refs: Vec<&Value> = parents.iter().collect();
            for _ in 0..draws / 4 {
                let out = catch(|| Crossover::new().crossover(&spec, &refs, &cp, &mut pctx, &mut rng)).map_err(|e| format!("crossover: {}", e))?;
                counts[i] += same(&out.0, &parents[i].0) as usize;
            }
        }
    }
    ctx.label(what);
    let desc = || {
        format!(
            "choosing {} among {} ranked parents with selection pressure {}: rank by rank {:?} picks",
            what, n, pressure, counts
        )
    };
    for i in 1..n {
        let (a, c) = (counts[i - 1] as f64, counts[i] as f64);
        if c - a > 6.0 * (a + c + 1.0).sqrt() {
            return Err(format!("rank {} is picked more often than rank {}; {}", i, i - 1, desc()));
        }
    }
    for i in 0..n {
        for j in i + 2..n {
            let (a, c) = (counts[i] as f64, counts[j] as f64);
            if c - a > 7.0 * (a + c + 1.0).sqrt() {
                return Err(format!("rank {} is picked more often than rank {}; {}", j, i, desc()));
            }
        }
    }
    if n > 10 {
        ctx.label("more than ten parents");
    }
    if n > 1 {
        let (best, worst) = (counts[0] as f64, counts[n - 1] as f64);
        if worst - best > 6.0 * (best + worst + 1.0).sqrt() {
            return Err(format!("the worst rank is picked more often than the best; {}", desc()));
        }
        if pressure >= 0.5 && best <= worst {
            return Err(format!("the best rank is not favoured over the worst; {}", desc()));
        }
        ctx.nontrivial(&desc());
        ctx.sample(|| json!({"position": what, "parents": n, "pressure": pressure, "picks": counts}));
    }
    Ok(())
}

// ------------------------------------------------------------ the battery

struct Problem {
    name: &'static str,
    yaml: &'static str,
    objective: fn(&J) -> f64,
    /// Solved at or below this.
    target: f64,
    /// Evaluations to solve it, over 2400 runs (the largest of five random streams of the tool): median, 90th percentile, maximum, and the worst
    /// median of 100000 resampled fleets of 160 runs.
    measured: [usize; 4],
}

fn nums(j: &J, out: &mut Vec<f64>) {
    match j {
        J::Number(n) => out.push(n.as_f64().unwrap_or(f64::NAN)),
        J::Array(a) => a.iter().for_each(|e| nums(e, out)),
        J::Object(m) => m.values().for_each(|e| nums(e, out)),
        _ => {}
    }
}

fn all(j: &J) -> Vec<f64> {
    let mut v = Vec::new();
    nums(j, &mut v);
    v
}

fn sphere(j: &J) -> f64 {
    all(j).iter().map(|x| x * x).sum()
}

fn battery() -> Vec<Problem> {
    vec![
        Problem { name: "sphere 1-D", yaml: "{type: real, init: 10.0, scale: 1.0}", objective: sphere, target: 1e-6, measured: [419, 1223, 5355, 583] },
        Problem { name: "sphere 2-D", yaml: "{x: {type: real, init: 10.0, scale: 1.0}, y: {type: real, init: -7.0, scale: 1.0}}", objective: sphere, target: 1e-4, measured: [495, 1121, 4212, 648] },
        Problem { name: "sphere 5-D", yaml: "{type: array, size: 5, valueType: {type: real, init: 5.0, scale: 1.0}}", objective: sphere, target: 1e-2, measured: [584, 1106, 3262, 696] },
        Problem { name: "sphere 3-D, steps 1000 times too small", yaml: "{type: array, size: 3, valueType: {type: real, init: 5.0, scale: 0.005}}", objective: sphere, target: 0.05, measured: [849, 1245, 2138, 977] },
        Problem { name: "sphere 3-D, steps 1000 times too large", yaml: "{type: array, size: 3, valueType: {type: real, init: 5.0, scale: 5000.0}}", objective: sphere, target: 0.05, measured: [1889, 5506, 22942, 2638] },
        Problem { name: "ellipsoid 3-D", yaml: "{a: {type: real, init: 3.0, scale: 1.0}, b: {type: real, init: 30.0, scale: 10.0}, c: {type: real, init: 0.3, scale: 0.1}}", objective: |j| {
            let g = |k: &str| j[k].as_f64().unwrap_or(f64::NAN);
            (g("a") - 1.0).powi(2) + ((g("b") - 10.0) / 10.0).powi(2) + ((g("c") - 0.1) * 10.0).powi(2)
        }, target: 1e-3, measured: [428, 973, 3851, 554] },
        Problem { name: "optimum on a lower bound", yaml: "{type: real, init: 8.0, scale: 1.0, min: 2.0, max: 10.0}", objective: |j| j.as_f64().unwrap_or(f64::NAN) - 2.0, target: 0.0, measured: [17, 44, 108, 26] },
        Problem { name: "optimum in the corner of three bounds", yaml: "{type: array, size: 3, valueType: {type: real, init: -1.0, scale: 0.5, min: -2.0, max: 3.0}}", objective: |j| all(j).iter().map(|x| 3.0 - x).sum(), target: 0.0, measured: [57, 100, 246, 70] },
        Problem { name: "integer grid 2-D", yaml: "{a: {type: int, init: 40, scale: 5.0, min: -50, max: 50}, b: {type: int, init: -40, scale: 5.0, min: -50, max: 50}}", objective: |j| {
            let g = |k: &str| j[k].as_i64().unwrap_or(i64::MAX / 4) as f64;
            (g("a") - 7.0).abs() + (g("b") - 11.0).abs()
        }, target: 0.0, measured: [162, 307, 1431, 194] },
        Problem { name: "integer grid 4-D, optimum on bounds", yaml: "{type: array, size: 4, valueType: {type: int, init: 0, scale: 2.0, min: -20, max: 20}}", objective: |j| all(j).iter().enumerate().map(|(i, x)| if i % 2 == 0 { 20.0 - x } else { x + 20.0 }).sum(), target: 0.0, measured: [80, 131, 291, 96] },
        Problem { name: "one-max 10", yaml: "{type: array, size: 10, valueType: {type: bool, init: false}}", objective: |j| j.as_array().map_or(f64::NAN, |a| a.iter().filter(|b| **b == J::Bool(false)).count() as f64), target: 0.0, measured: [116, 393, 5034, 173] },
        Problem { name: "one-max 20 in a sub of two arrays", yaml: "{p: {type: array, size: 10, valueType: {type: bool, init: false}}, q: {type: array, size: 10, valueType: {type: bool, init: true}}}", objective: |j| {
            let c = |k: &str, v: bool| j[k].as_array().map_or(f64::NAN, |a| a.iter().filter(|b| **b == J::Bool(v)).count() as f64);
            c("p", false) + c("q", true)
        }, target: 0.0, measured: [317, 1302, 26762, 464] },
        Problem { name: "map of size 9", yaml: "{type: anon map, initSize: 2, maxSize: 40, valueType: {type: bool, init: false}}", objective: |j| (j.as_object().map_or(f64::NAN, |m| m.len() as f64) - 9.0).abs(), target: 0.0, measured: [41, 65, 141, 48] },
        Problem { name: "map shrinking to its minimum", yaml: "{type: anon map, initSize: 12, minSize: 3, valueType: {type: bool, init: false}}", objective: |j| j.as_object().map_or(f64::NAN, |m| m.len() as f64) - 3.0, target: 0.0, measured: [81, 133, 308, 94] },
        Problem { name: "map of 4 with all flags set", yaml: "{type: anon map, initSize: 1, maxSize: 10, valueType: {type: bool, init: false}}", objective: |j| j.as_object().map_or(f64::NAN, |m| {
            (m.len() as f64 - 4.0).abs() + m.values().filter(|b| **b == J::Bool(false)).count() as f64
        }), target: 0.0, measured: [89, 201, 1302, 116] },
        Problem { name: "enums", yaml: "{type: array, size: 4, valueType: {type: enum, init: a, values: [a, b, c, d, e]}}", objective: |j| j.as_array().map_or(f64::NAN, |a| a.iter().zip(["d", "b", "e", "c"]).filter(|(x, y)| x.as_str() != Some(y)).count() as f64), target: 0.0, measured: [87, 210, 1378, 115] },
        Problem { name: "variant with a tuned option", yaml: "{type: variant, init: a, a: {type: real, init: 0.0, scale: 1.0}, b: {type: real, init: 5.0, scale: 1.0}, c: {type: bool, init: false}}", objective: |j| match (j.get("a"), j.get("b"), j.get("c")) {
            (Some(x), _, _) => 10.0 + x.as_f64().unwrap_or(f64::NAN).abs(),
            (_, Some(x), _) => (x.as_f64().unwrap_or(f64::NAN) - 2.0).abs(),
            _ => 20.0,
        }, target: 0.01, measured: [504, 1624, 7328, 698] },
        Problem { name: "enum and variant choice", yaml: "{m: {type: variant, init: x, x: {type: const}, y: {type: enum, init: p, values: [p, q, r]}, z: {type: const}}, n: {type: enum, init: u, values: [u, v, w]}}", objective: |j| {
            let m = match j["m"].get("y") { Some(e) => if e.as_str() == Some("r") { 0.0 } else { 1.0 }, None => 2.0 };
            m + if j["n"].as_str() == Some("w") { 0.0 } else { 1.0 }
        }, target: 0.0, measured: [28, 78, 290, 41] },
        Problem { name: "optional to be present and tuned", yaml: "{type: optional, initPresent: false, valueType: {type: real, init: 5.0, scale: 1.0}}", objective: |j| j.as_f64().map_or(50.0, |x| (x - 1.0).abs()), target: 0.01, measured: [506, 1380, 6836, 677] },
        Problem { name: "optionals to be present or absent", yaml: "{type: array, size: 5, valueType: {type: optional, initPresent: false, valueType: {type: bool, init: false}}}", objective: |j| j.as_array().map_or(f64::NAN, |a| a.iter().enumerate().filter(|(i, x)| match i % 3 { 0 => **x != J::Bool(true), 1 => !x.is_null(), _ => **x != J::Bool(false) }).count() as f64), target: 0.0, measured: [110, 349, 4517, 161] },
        Problem { name: "map of reals with a target sum and size", yaml: "{type: anon map, initSize: 2, maxSize: 20, valueType: {type: real, init: 1.0, scale: 0.5}}", objective: |j| {
            let v = all(j);
            (v.len() as f64 - 5.0).abs() + v.iter().map(|x| (x - 2.0).abs()).sum::<f64>() / (v.len().max(1) as f64)
        }, target: 0.1, measured: [350, 613, 2879, 415] },
        Problem { name: "sphere 3-D of scale 100000", yaml: "{type: array, size: 3, valueType: {type: real, init: 0.0, scale: 100000.0}}", objective: |j| all(j).iter().map(|x| ((x - 1e6) / 1e5).powi(2)).sum(), target: 0.05, measured: [221, 356, 1110, 256] },
        Problem { name: "sphere 2-D of scale 1e-6", yaml: "{x: {type: real, init: 1.0, scale: 0.000001}, y: {type: real, init: -1.0, scale: 0.000001}}", objective: |j| {
            let g = |k: &str| j[k].as_f64().unwrap_or(f64::NAN);
            ((g("x") - 1.00001) * 1e6).powi(2) + ((g("y") + 0.999995) * 1e6).powi(2)
        }, target: 0.01, measured: [2709, 5115, 11519, 3318] },
        Problem { name: "far integers of scale 2000", yaml: "{a: {type: int, init: 0, scale: 2000.0}, b: {type: int, init: 0, scale: 2000.0, min: -1000000}}", objective: |j| {
            let g = |k: &str| j[k].as_i64().map_or(f64::NAN, |x| x as f64);
            ((g("a") - 30000.0).abs() + (g("b") + 20000.0).abs()) / 2000.0
        }, target: 0.01, measured: [485, 1058, 8785, 609] },
        Problem { name: "ellipsoid 4-D over twelve orders of magnitude", yaml: "{a: {type: real, init: 0.0, scale: 1000000.0}, b: {type: real, init: 0.0, scale: 1000.0}, c: {type: real, init: 0.0, scale: 0.001}, d: {type: real, init: 0.0, scale: 0.000001}}", objective: |j| {
            let g = |k: &str| j[k].as_f64().unwrap_or(f64::NAN);
            (g("a") / 1e6 - 3.0).powi(2) + (g("b") / 1e3 + 3.0).powi(2) + (g("c") / 1e-3 - 3.0).powi(2) + (g("d") / 1e-6 + 3.0).powi(2)
        }, target: 0.01, measured: [399, 775, 2284, 478] },
        Problem { name: "map of variants", yaml: "{type: anon map, initSize: 2, maxSize: 12, valueType: {type: variant, init: e, e: {type: enum, init: p, values: [p, q]}, r: {type: real, init: 0.0, scale: 1.0}}}", objective: |j| j.as_object().map_or(f64::NAN, |m| {
            (m.len() as f64 - 3.0).abs() + m.values().map(|v| v.get("r").map_or(5.0, |x| (x.as_f64().unwrap_or(f64::NAN) - 2.0).abs())).sum::<f64>()
        }), target: 0.1, measured: [1160, 3344, 20617, 1560] },
        Problem { name: "one of forty values", yaml: "{type: array, size: 2, valueType: {type: enum, init: v0, values: [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39]}}", objective: |j| j.as_array().map_or(f64::NAN, |a| a.iter().zip(["v39", "v20"]).filter(|(x, y)| x.as_str() != Some(y)).count() as f64), target: 0.0, measured: [225, 591, 2635, 309] },
        Problem { name: "deep inside", yaml: "{a: {b: {type: optional, initPresent: true, valueType: {type: array, size: 2, valueType: {type: sub, c: {type: anon map, initSize: 1, minSize: 1, maxSize: 3, valueType: {type: int, init: 0, scale: 3.0, min: -100, max: 100}}}}}}}", objective: |j| {
            j["a"]["b"].as_array().map_or(500.0, |a| a.iter().map(|e| e["c"].as_object().map_or(f64::NAN, |m| {
                m.values().map(|x| (x.as_f64().unwrap_or(f64::NAN) - 9.0).abs()).sum::<f64>() + 3.0 * (m.len() as f64 - 2.0).abs()
            })).sum())
        }, target: 0.0, measured: [762, 1696, 12963, 975] },
    ]
}

use serde_json::Value as J;

/// The initial value with its reals moved by up to 5 percent.
fn perturbed(t: &mut Tape, v: &mut V) {
    match v {
        V::Real(x) => *x *= 0.95 + 0.1 * t.unit(),
        V::Sub(m) => m.values_mut().for_each(|e| perturbed(t, e)),
        V::Variant(_, e) => perturbed(t, e),
        V::Array(a) => a.iter_mut().for_each(|e| perturbed(t, e)),
        V::AnonMap(m) => m.values_mut().for_each(|e| perturbed(t, e)),
        V::Optional(Some(e)) => perturbed(t, e),
        _ => {}
    }
}

/// Evaluations until the problem is solved, or None within `budget`.
fn solve(p: &Problem, budget: usize, t: &mut Tape) -> Result<Option<usize>, String> {
    let spec = cambrian::spec_util::from_yaml_str(p.yaml).map_err(|e| format!("{}: the problem's spec is not accepted: {}", p.name, e))?;
    let nc = *t.pick(&[1usize, 2, 4, 8]);
    let rejecting = *t.pick(&[0u64, 20, 50]);
    // the first offspring are rejected and not counted: a fleet must not consist of runs with the same random choices
    let skip = t.usize(0, 150);
    let budget = budget.saturating_add(skip);
    let mut init = init_value(&spec.0);
    let before = init.clone();
    perturbed(t, &mut init);
    let mut c = Cfg::new(spec.0);
    c.nc = nc;
    c.budget = Some(budget);
    c.target = Some(p.target);
    c.cap = usize::MAX / 4;
    if !same(&before, &init) {
        c.guess = Some(init.to_json());
    }
    c.p_immediate = if nc == 1 { 990 } else { 300 };
    c.rt_seed = t.u64();
    let mut t = Tape::random(t.u64());
    let objective = p.objective;
    let mut rejections = Tape::random(t.u64());
    let r = run_with(
        &mut t,
        &c,
        Some(Box::new(move |i, j| if (1..=skip).contains(&i) || i > 0 && rejections.chance(rejecting, 1000) { Out::Reject } else { Out::Value(objective(j)) })),
    )?;
    match &r.res {
        Res::Report { best, .. } if *best <= p.target => Ok(Some(r.done().len().saturating_sub(skip))),
        Res::Report { .. } => Ok(None),
        other => r.fail(format!("{}: the run ends with {:?}", p.name, other)),
    }
}

/// Prints the measured distribution of the battery and the limits derived from it.
pub fn measure_main(only_new: bool) -> i32 {
    let runs = 2400u64;
    for p in battery() {
        if only_new && p.measured[0] != 0 {
            continue;
        }
        let next = std::sync::atomic::AtomicU64::new(0);
        let all = std::sync::Mutex::new((Vec::new(), 0usize));
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let mut t = Tape::random(crate::tape::mix(77, i));
                    match solve(&p, 400_000, &mut t) {
                        Ok(Some(n)) => all.lock().unwrap().0.push(n),
                        Ok(None) => all.lock().unwrap().1 += 1,
                        Err(e) => println!("{}", e),
                    }
                });
            }
        });
        let (mut v, failed) = all.into_inner().unwrap();
        v.sort();
        let mut t = Tape::random(5);
        let mut worst = [0usize; 2];
        for _ in 0..100_000 {
            let mut f: Vec<usize> = (0..FLEET).map(|_| v[t.below(v.len() as u64) as usize]).collect();
            for (k, at) in [FLEET / 2, FLEET * 9 / 10].into_iter().enumerate() {
                let (_, m, _) = f.select_nth_unstable(at);
                worst[k] = worst[k].max(*m);
            }
        }
        println!(
            "{:45} median {:6} p90 {:6} max {:6} unsolved {}   worst of a fleet: median {:6} p90 {:6}",
            p.name,
            v.get(v.len() / 2).unwrap_or(&0),
            v.get(v.len() * 9 / 10).unwrap_or(&0),
            v.last().unwrap_or(&0),
            failed,
            worst[0],
            worst[1]
        );
    }
    0
}

/// Runs per fleet.
const FLEET: usize = 160;

fn solves(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let problems = battery();
    let p = &problems[t.below(problems.len() as u64) as usize];
    let mut t = Tape::random(t.u64());
    let [median, p90, max, worst_median] = p.measured;
    let budget = max * 10;
    let mut v = Vec::new();
    for i in 0..FLEET {
        match solve(p, budget, &mut t)? {
            Some(n) => v.push(n),
            None => {
                return Err(format!(
                    "{}: a run is not solved within {} evaluations (run {} of the fleet; 2400 runs of the reference needed {} in the median and {} at most)\nspec: {}",
                    p.name, budget, i, median, max, p.yaml
                ))
            }
        }
    }
    v.sort();
    let (m, n) = (v[FLEET / 2], v[FLEET * 9 / 10]);
    ctx.label(p.name);
    ctx.num("runs", FLEET as u64);
    ctx.num("evaluations", v.iter().sum::<usize>() as u64);
    ctx.nontrivial(&format!("{}{:?}", p.name, v));
    ctx.sample(|| json!({"problem": p.name, "spec": p.yaml, "runs": FLEET, "median": m, "p90": n, "max": v[FLEET - 1], "limits": [worst_median * 14 / 10, p90 * 5 / 2, budget]}));
    if m > worst_median * 14 / 10 + 2 {
        return Err(format!(
            "{}: {} runs need {} evaluations in the median; the stated budget is {} (the reference needs {})\nspec: {}",
            p.name, FLEET, m, worst_median * 14 / 10 + 2, median, p.yaml
        ));
    }
    if n > p90 * 5 / 2 {
        return Err(format!(
            "{}: a tenth of {} runs need {} evaluations or more; the stated budget is {} (the reference needs {})\nspec: {}",
            p.name, FLEET, n, p90 * 5 / 2, p90, p.yaml
        ));
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        families: vec![
            Family::new("battery", 280, 4200, solves,
                "battery: a fleet of 160 runs of one of 28 problems with known optimum (concurrency 1-8, some rejections, up to 150 offspring skipped at first, perturbed initial guess, random completion order); every run must reach the target within 10 times the reference maximum, the median and the 90th percentile of the fleet must stay within the stated budget; non-trivial always."),
            Family::new("liveness", 300000, 5000000, liveness,
                "liveness: 90 mutations with probability 1 of one value; every boolean, enum, variant, optional and unpinned map changes every time, every number (scale >= 1) within 60 attempts; non-trivial if the spec has something besides sub, array, const."),
            Family::new("reach", 200000, 4000000, reach,
                "reach: walks of 25 mutations from one value, 25000 in all at most, must visit every alternative of an enum or variant, both states of an optional, and every admitted size of a map, at any nesting position; always non-trivial."),
            Family::new("mixing", 60000, 1200000, mixing,
                "mixing: 160 recombinations with probability 1 of parents differing in every leaf and, at random, in options, presence and map keys; the offspring mix, every position comes from the best and from other parents, neighbouring positions are independent; non-trivial with more than one position."),
            Family::new("selection", 12000, 120000, selection,
                "selection: how often each rank's value is picked at a position of a given kind, for a random number of parents and pressure; non-increasing in rank up to 6 standard deviations; non-trivial with more than one parent."),
        ],
        assumptions: vec![
            "the battery's budgets are those in the source of the check (checks/c17.rs), the largest of five measurements of 2400 runs per problem on the reference tree, with its own and four other random streams",
            "selection is observed through the offspring of recombination, statistically: an inversion of two ranks smaller than about 6 standard deviations of the draws is not seen",
        ],
    }
}
