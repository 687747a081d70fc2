use crate::engine::{catch, Check, Ctx, Family};
use crate::model::*;
use crate::ops::{same, show};
use crate::tape::Tape;
use cambrian::spec::{Node, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::value_util;
use serde_json::{json, Value as J};

/// Equality of JSON documents down to the bits of the numbers.
pub fn same_json(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => {
            x.is_f64() == y.is_f64()
                && x.is_i64() == y.is_i64()
                && match (x.as_f64(), y.as_f64()) {
                    (Some(p), Some(q)) if x.is_f64() => p.to_bits() == q.to_bits(),
                    _ => x == y,
                }
        }
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q)),
        (J::Object(x), J::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same_json(p, q)))
        }
        _ => a == b,
    }
}

/// `JSON(value)` where some maps are written as arrays (allowed when the keys are 0..n).
fn array_encoded(t: &mut Tape, spec: &Node, v: &V, used: &mut usize) -> J {
    match (spec, v) {
        (Node::AnonMap { value_type, .. }, V::AnonMap(m)) => {
            let dense = (0..m.len()).all(|k| m.contains_key(&k));
            if dense && t.chance(2, 3) {
                *used += 1;
                J::Array((0..m.len()).map(|k| array_encoded(t, value_type, &m[&k], used)).collect())
            } else {
                let mut keys: Vec<_> = m.keys().copied().collect();
                keys.sort();
                J::Object(keys.iter().map(|k| (k.to_string(), array_encoded(t, value_type, &m[k], used))).collect())
            }
        }
        (Node::Sub { map }, V::Sub(m)) => {
            J::Object(sorted(map).into_iter().map(|(k, s)| (k.clone(), array_encoded(t, s, &m[k], used))).collect())
        }
        (Node::Array { value_type, .. }, V::Array(a)) => {
            J::Array(a.iter().map(|e| array_encoded(t, value_type, e, used)).collect())
        }
        (Node::Variant { map, .. }, V::Variant(k, e)) => {
            let mut o = serde_json::Map::new();
            o.insert(k.clone(), array_encoded(t, &map[k], e, used));
            J::Object(o)
        }
        (Node::Optional { value_type, .. }, V::Optional(Some(e))) => array_encoded(t, value_type, e, used),
        _ => json_of(v),
    }
}

/// Both an absent optional and a present one whose content is written as null are written as null.
fn ambiguous(spec: &Node, v: &V) -> bool {
    match (spec, v) {
        (Node::Optional { value_type, .. }, V::Optional(Some(e))) => {
            json_of(e).is_null() || ambiguous(value_type, e)
        }
        (Node::Optional { value_type, .. }, V::Optional(None)) => {
            matches!(**value_type, Node::Const | Node::Optional { .. })
        }
        (Node::Sub { map }, V::Sub(m)) => map.iter().any(|(k, s)| ambiguous(s, &m[k])),
        (Node::Array { value_type, .. }, V::Array(a)) => a.iter().any(|e| ambiguous(value_type, e)),
        (Node::AnonMap { value_type, .. }, V::AnonMap(m)) => m.values().any(|e| ambiguous(value_type, e)),
        (Node::Variant { map, .. }, V::Variant(k, e)) => ambiguous(&map[k], e),
        _ => false,
    }
}

/// What the JSON library makes of the text (the same library and features as the code under test).
fn through_text(text: &str) -> Result<J, String> {
    serde_json::from_str(text).map_err(|e| format!("HARNESS: {} is not JSON: {}", text, e))
}

/// Reading text must be reading the document the text parses to.
fn same_as_parsed(spec: &Spec, text: &str, parsed: &J, got: &Result<Value, cambrian::error::Error>) -> Result<(), String> {
    match (value_util::from_json_value(parsed, spec), got) {
        (Ok(a), Ok(b)) if same(&a.0, &b.0) => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("reading the text {} is not reading the document it contains", text)),
    }
}

fn roundtrip(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 40), ..GenCfg::default() };
    let spec = Spec(gen_spec(t, &cfg));
    let v = if t.chance(1, 8) { init_value(&spec.0) } else { gen_value(t, &spec.0) };
    let yaml = to_yaml(&spec.0);
    let desc = |m: String| format!("{}\nspec: {}\nvalue: {}", m, yaml, show(&v));
    let value = Value(v.clone());
    let j = catch(|| value.to_json()).map_err(|e| desc(format!("to_json: {}", e)))?;
    if !same_json(&j, &json_of(&v)) {
        return Err(desc(format!("to_json gives {} instead of {}", j, json_of(&v))));
    }
    // the JSON document as a value
    let back = catch(|| value_util::from_json_value(&j, &spec))
        .map_err(|e| desc(format!("reading {}: {}", j, e)))?
        .map_err(|e| desc(format!("{} is rejected as a guess: {}", j, e)))?;
    conforms_value(&spec.0, &back.0, "").map_err(|e| desc(format!("{} is read as a non-conforming value: {}", j, e)))?;
    if !ambiguous(&spec.0, &v) && !same(&back.0, &v) {
        return Err(desc(format!("{} is read back as {}", j, show(&back.0))));
    }
    let j2 = back.to_json();
    if !same_json(&j, &j2) {
        return Err(desc(format!("{} is read back and written as {}", j, j2)));
    }
    // the JSON document as text, as printed by the tool and passed to --initial-guess
    let text = j.to_string();
    let reparsed = through_text(&text)?;
    let back = catch(|| value_util::from_json_str(&text, &spec)).map_err(|e| desc(format!("reading {}: {}", text, e)))?;
    if same_json(&reparsed, &j) {
        let back = back.map_err(|e| desc(format!("text {} is rejected as a guess: {}", text, e)))?;
        let text2 = back.to_json().to_string();
        if text2 != text {
            return Err(desc(format!("text {} is read back and written as {}", text, text2)));
        }
    } else {
        ctx.label("the text contains a number the JSON parser does not read exactly");
        same_as_parsed(&spec, &text, &reparsed, &back).map_err(&desc)?;
        ctx.known("C11", "float-text", || desc(format!("the text {} is read as {}", text, reparsed)))?;
    }
    // maps written as arrays
    let mut used = 0;
    let ja = array_encoded(t, &spec.0, &v, &mut used);
    if used > 0 {
        ctx.label("maps written as arrays");
        let back = catch(|| value_util::from_json_value(&ja, &spec))
            .map_err(|e| desc(format!("reading {}: {}", ja, e)))?
            .map_err(|e| desc(format!("{} is rejected as a guess: {}", ja, e)))?;
        if !same_json(&back.to_json(), &j) {
            return Err(desc(format!("{} is read as {}", ja, back.to_json())));
        }
    }
    let mut kinds = Default::default();
    kinds_in(&spec.0, &mut kinds);
    for k in &kinds {
        ctx.label(format!("has {}", k));
    }
    if count_nodes(&spec.0) > 1 && !same(&v, &init_value(&spec.0)) {
        ctx.nontrivial(&format!("{}{}", yaml, text));
        ctx.sample(|| json!({"spec": yaml, "value": j}));
    }
    Ok(())
}

// ------------------------------------------------------------ one defect

/// All (spec node, JSON pointer) positions of a document.
fn positions<'a>(spec: &'a Node, j: &J, path: Vec<String>, out: &mut Vec<(&'a Node, Vec<String>)>) {
    let sub = |k: &str| {
        let mut p = path.clone();
        p.push(k.to_string());
        p
    };
    match (spec, j) {
        (Node::Sub { map }, J::Object(m)) => {
            for (k, s) in sorted(map) {
                if let Some(e) = m.get(k) {
                    positions(s, e, sub(k), out);
                }
            }
        }
        (Node::Array { value_type, .. }, J::Array(a)) | (Node::AnonMap { value_type, .. }, J::Array(a)) => {
            for (i, e) in a.iter().enumerate() {
                positions(value_type, e, sub(&i.to_string()), out);
            }
        }
        (Node::AnonMap { value_type, .. }, J::Object(m)) => {
            for (k, e) in m {
                positions(value_type, e, sub(k), out);
            }
        }
        (Node::Variant { map, .. }, J::Object(m)) => {
            for (k, e) in m {
                if let Some(s) = map.get(k) {
                    positions(s, e, sub(k), out);
                }
            }
        }
        (Node::Optional { value_type, .. }, e) if !e.is_null() => positions(value_type, e, path.clone(), out),
        _ => {}
    }
    out.push((spec, path));
}

fn at<'a>(j: &'a mut J, path: &[String]) -> &'a mut J {
    let mut cur = j;
    for p in path {
        cur = match cur {
            J::Object(m) => m.get_mut(p).unwrap(),
            J::Array(a) => a.get_mut(p.parse::<usize>().unwrap()).unwrap(),
            _ => unreachable!(),
        };
    }
    cur
}

fn other_type(t: &mut Tape) -> J {
    match t.below(9) {
        0 => json!(null),
        1 => json!(true),
        2 => json!(3),
        3 => json!(0.5),
        4 => json!("x"),
        5 => json!([]),
        6 => json!({}),
        7 => json!([1, 2]),
        _ => json!({"0": 1}),
    }
}

fn fill(t: &mut Tape, s: &Node) -> J {
    json_of(&gen_value(t, s))
}

/// Introduces one defect at one position; None if this position offers none of the drawn kind.
fn corrupt(t: &mut Tape, spec: &Node, j: &mut J) -> Option<&'static str> {
    if t.chance(1, 4) {
        *j = other_type(t);
        return Some("another kind of value");
    }
    if t.chance(1, 6) {
        // the same thing in another notation
        *j = match (t.below(5), &*j) {
            (0, J::Number(n)) => json!(n.to_string()),
            (1, J::Bool(b)) => json!(b.to_string()),
            (2, J::Bool(b)) => json!(*b as u8),
            (_, J::Null) => t.pick(&[json!("null"), json!(""), json!(false), json!(0), json!([]), json!({})]).clone(),
            (3, e) => json!([e]),
            (4, J::Array(a)) => J::Object(a.iter().enumerate().map(|(i, e)| (i.to_string(), e.clone())).collect()),
            (_, J::String(s)) => json!({ s.as_str(): null }),
            (_, e) => json!(e.to_string()),
        };
        return Some("another notation");
    }
    match (spec, &mut *j) {
        (Node::Real { min, max, .. }, _) => {
            let (v, w) = match (t.below(4), min, max) {
                (0, Some(m), _) => (-next_up(-*m), "a real just below min"),
                (1, _, Some(m)) => (next_up(*m), "a real just above max"),
                (2, Some(m), _) => (*m - 1.0 - m.abs(), "a real below min"),
                (_, _, Some(m)) => (*m + 1.0 + m.abs(), "a real above max"),
                _ => return None,
            };
            *j = json!(v);
            Some(w)
        }
        (Node::Int { min, max, .. }, _) => {
            let (v, w) = match (t.below(4), min, max) {
                (0, Some(m), _) if *m > i64::MIN => (json!(m - 1), "an int just below min"),
                (1, _, Some(m)) if *m < i64::MAX => (json!(m + 1), "an int just above max"),
                (2, ..) => (json!(j.as_i64().unwrap_or(0) as f64 + 0.5), "a fractional int"),
                _ => (json!(u64::MAX - t.below(3)), "an int beyond 64 bits"),
            };
            *j = v;
            Some(w)
        }
        (Node::Enum { values, .. }, _) => {
            let (s, w) = match t.below(3) {
                0 => (gen_name(t, true), "an undeclared enum value"),
                1 => {
                    let v = t.pick(values).clone();
                    (near(t, &v), "almost an enum value")
                }
                _ => (t.below(values.len() as u64).to_string(), "the position of an enum value"),
            };
            if values.contains(&s) {
                return None;
            }
            *j = json!(s);
            Some(w)
        }
        (Node::Const, _) => {
            *j = t.pick(&[json!(true), json!({}), json!("const"), json!(0)]).clone();
            Some("a const that is not null")
        }
        (Node::Sub { map }, J::Object(m)) => {
            let keys: Vec<String> = sorted(map).keys().map(|s| s.to_string()).collect();
            if t.chance(1, 3) {
                m.remove(t.pick(&keys).as_str());
                Some("a declared key missing")
            } else if t.chance(1, 2) {
                // also next to the declared key
                let k = t.pick(&keys).clone();
                let n = near(t, &k);
                if map.contains_key(&n) {
                    return None;
                }
                let v = if t.chance(1, 2) { m[&k].clone() } else { m.remove(&k)? };
                m.insert(n, v);
                Some("almost a declared key")
            } else {
                let k = gen_name(t, true);
                if m.contains_key(&k) {
                    return None;
                }
                m.insert(k, t.pick(&[json!(null), json!(1), json!({}), json!(false)]).clone());
                Some("an undeclared key")
            }
        }
        (Node::Array { value_type, size }, J::Array(a)) => {
            let n = *size;
            match t.below(4) {
                0 => {
                    a.pop();
                    Some("an array one short")
                }
                1 => {
                    a.push(fill(t, value_type));
                    Some("an array one long")
                }
                2 => {
                    a.clear();
                    Some("an empty array")
                }
                _ => {
                    for _ in 0..n {
                        a.push(fill(t, value_type));
                    }
                    Some("an array twice as long")
                }
            }
        }
        (Node::AnonMap { value_type, min_size, max_size, .. }, J::Object(m)) => match t.below(3) {
            0 => {
                let lo = (*min_size)?;
                if lo == 0 {
                    return None;
                }
                while m.len() >= lo {
                    let k = m.keys().next().unwrap().clone();
                    m.remove(&k);
                }
                Some("a map below its minimum size")
            }
            1 => {
                let hi = (*max_size)?;
                let mut k = 0;
                while m.len() <= hi {
                    m.entry(k.to_string()).or_insert_with(|| json!(null));
                    let p = k.to_string();
                    if m[&p].is_null() {
                        m[&p] = fill(t, value_type);
                    }
                    k += 1;
                }
                Some("a map above its maximum size")
            }
            _ => {
                let bad = t.pick(&["x", "", "-1", "1.0", "18446744073709551616", "0x1", " 1", "1 ", "1e1", "٣"]).to_string();
                let v = fill(t, value_type);
                if let Some(hi) = max_size {
                    if m.len() >= *hi {
                        let k = m.keys().next().unwrap().clone();
                        m.remove(&k);
                    }
                }
                m.insert(bad, v);
                Some("a map key that is not an unsigned integer")
            }
        },
        (Node::AnonMap { value_type, min_size, max_size, .. }, J::Array(a)) => {
            if t.chance(1, 2) {
                let lo = (*min_size)?;
                if lo == 0 {
                    return None;
                }
                a.truncate(lo - 1);
                Some("a map (as an array) below its minimum size")
            } else {
                let hi = (*max_size)?;
                while a.len() <= hi {
                    a.push(fill(t, value_type));
                }
                Some("a map (as an array) above its maximum size")
            }
        }
        (Node::Variant { map, .. }, J::Object(m)) => match t.below(4) {
            3 => {
                let old = m.keys().next()?.clone();
                let k = near(t, &old);
                if map.contains_key(&k) {
                    return None;
                }
                let v = m.remove(&old).unwrap();
                m.insert(k, v);
                Some("almost an option")
            }
            0 => {
                m.clear();
                Some("a variant without an option")
            }
            1 => {
                let keys: Vec<String> = sorted(map).keys().map(|s| s.to_string()).collect();
                let k = t.pick(&keys).clone();
                if m.contains_key(&k) {
                    return None;
                }
                let v = fill(t, &map[&k]);
                m.insert(k, v);
                Some("a variant with two options")
            }
            _ => {
                let k = gen_name(t, true);
                if map.contains_key(&k) {
                    return None;
                }
                let old = m.keys().next()?.clone();
                let v = m.remove(&old).unwrap();
                m.insert(k, v);
                Some("an undeclared option")
            }
        },
        _ => None,
    }
}

/// Reference acceptance, with maps in either encoding.
pub fn accepts(spec: &Node, j: &J) -> Result<(), String> {
    conforms_json(spec, &normalise(spec, j), "")
}

fn normalise(spec: &Node, j: &J) -> J {
    match (spec, j) {
        (Node::AnonMap { value_type, .. }, J::Array(a)) => {
            J::Object(a.iter().enumerate().map(|(i, e)| (i.to_string(), normalise(value_type, e))).collect())
        }
        (Node::AnonMap { value_type, .. }, J::Object(m)) => {
            J::Object(m.iter().map(|(k, e)| (k.clone(), normalise(value_type, e))).collect())
        }
        (Node::Array { value_type, .. }, J::Array(a)) => {
            J::Array(a.iter().map(|e| normalise(value_type, e)).collect())
        }
        (Node::Sub { map }, J::Object(m)) | (Node::Variant { map, .. }, J::Object(m)) => J::Object(
            m.iter().map(|(k, e)| (k.clone(), map.get(k).map_or(e.clone(), |s| normalise(s, e)))).collect(),
        ),
        (Node::Optional { value_type, .. }, e) if !e.is_null() => normalise(value_type, e),
        _ => j.clone(),
    }
}

/// Draws a conforming document and breaks it in one place. Returns spec, document, defect.
pub fn broken_guess(t: &mut Tape, cfg: &GenCfg) -> Option<(Spec, J, String, String)> {
    let spec = Spec(gen_spec(t, cfg));
    let v = gen_value(t, &spec.0);
    let mut used = 0;
    let mut j = array_encoded(t, &spec.0, &v, &mut used);
    let mut pos = Vec::new();
    positions(&spec.0, &j, Vec::new(), &mut pos);
    let what = {
        let mut found = None;
        for _ in 0..4 {
            let (s, p) = t.pick(&pos).clone();
            let backup = j.clone();
            let slot = at(&mut j, &p);
            if let Some(w) = corrupt(t, s, slot) {
                if accepts(&spec.0, &j).is_err() {
                    found = Some((w, format!("/{}", p.join("/"))));
                    break;
                }
            }
            j = backup;
        }
        found
    };
    let (w, p) = what?;
    Some((spec, j, w.to_string(), p))
}

fn broken(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 5), size: t.usize(1, 30), ..GenCfg::default() };
    let Some((spec, j, what, path)) = broken_guess(t, &cfg) else { return Ok(()) };
    let yaml = to_yaml(&spec.0);
    ctx.label(what.clone());
    for text in [false, true] {
        let r = if text {
            let s = j.to_string();
            catch(|| value_util::from_json_str(&s, &spec))
        } else {
            catch(|| value_util::from_json_value(&j, &spec))
        };
        match r {
            Err(e) => return Err(format!("reading the guess {}: {}\nspec: {}", j, e, yaml)),
            Ok(Ok(v)) if text && accepts(&spec.0, &through_text(&j.to_string())?).is_ok() => {
                let r: Result<Value, cambrian::error::Error> = Ok(v);
                let parsed = through_text(&j.to_string())?;
                same_as_parsed(&spec, &j.to_string(), &parsed, &r)?;
                ctx.known("C11", "float-text", || format!("the text {} is read as {}", j, parsed))?;
            }
            Ok(Ok(v)) => {
                return Err(format!(
                    "a guess with {} (at {}) is accepted\nspec: {}\nguess: {}\nread as: {}",
                    what,
                    path,
                    yaml,
                    j,
                    show(&v.0)
                ))
            }
            Ok(Err(e)) => {
                let _ = e.to_string();
            }
        }
    }
    ctx.nontrivial(&format!("{}{}", yaml, j));
    ctx.sample(|| json!({"spec": yaml, "guess": j, "defect": what, "at": path}));
    Ok(())
}

// ------------------------------------------------------------ any document

fn any_json(t: &mut Tape, spec: &Node, depth: usize) -> J {
    // mostly shaped by the spec so that documents get deep
    if depth > 0 && t.chance(5, 6) {
        match spec {
            Node::Sub { map } => {
                let mut o = serde_json::Map::new();
                for (k, s) in sorted(map) {
                    if !t.chance(1, 30) {
                        o.insert(k.clone(), any_json(t, s, depth - 1));
                    }
                }
                if t.chance(1, 30) {
                    o.insert(gen_name(t, true), json!(1));
                }
                return J::Object(o);
            }
            Node::Array { value_type, size } => {
                let n = if t.chance(1, 15) { t.usize(0, size + 2) } else { *size };
                return J::Array((0..n).map(|_| any_json(t, value_type, depth - 1)).collect());
            }
            Node::AnonMap { value_type, min_size, max_size, init_size } => {
                let lo = min_size.unwrap_or(0);
                let hi = max_size.unwrap_or(*init_size + 2);
                let n = if t.chance(1, 8) { t.usize(0, hi + 1) } else { t.usize(lo, hi) };
                if t.chance(1, 2) {
                    return J::Array((0..n).map(|_| any_json(t, value_type, depth - 1)).collect());
                }
                return J::Object(
                    (0..n)
                        .map(|i| {
                            let k = match t.weighted(&[20, 1, 1]) {
                                0 => i.to_string(),
                                1 => t.pick(&["18446744073709551615", "18446744073709551614", "9999", "7"]).to_string(),
                                _ => gen_name(t, true),
                            };
                            (k, any_json(t, value_type, depth - 1))
                        })
                        .collect(),
                );
            }
            Node::Variant { map, .. } => {
                let keys: Vec<String> = sorted(map).keys().map(|s| s.to_string()).collect();
                let k = t.pick(&keys).clone();
                let v = any_json(t, &map[&k], depth - 1);
                let mut o = serde_json::Map::new();
                o.insert(k, v);
                return J::Object(o);
            }
            Node::Optional { value_type, .. } => {
                return if t.chance(1, 4) { J::Null } else { any_json(t, value_type, depth - 1) }
            }
            leaf => {
                if t.chance(9, 10) {
                    return json_of(&gen_value(t, leaf));
                }
            }
        }
    }
    match t.below(8) {
        0 => J::Null,
        1 => json!(t.chance(1, 2)),
        2 => json!(gen_int(t, true)),
        3 => json!(gen_real(t, true)),
        4 => json!(u64::MAX - t.below(1 << 20)),
        5 => json!(gen_name(t, true)),
        6 => J::Array((0..t.usize(0, 3)).map(|_| json!(t.below(3))).collect()),
        _ => J::Object((0..t.usize(0, 3)).map(|i| (if t.chance(1, 2) { i.to_string() } else { gen_name(t, true) }, json!(i))).collect()),
    }
}

/// Keys such as "05" or "+5" name an element without being its canonical spelling.
fn odd_keys(spec: &Node, j: &J) -> bool {
    match (spec, j) {
        (Node::AnonMap { value_type, .. }, J::Object(m)) => {
            m.iter().any(|(k, e)| (!canonical_key(k) && k.parse::<usize>().is_ok()) || odd_keys(value_type, e))
        }
        (Node::AnonMap { value_type, .. }, J::Array(a)) | (Node::Array { value_type, .. }, J::Array(a)) => {
            a.iter().any(|e| odd_keys(value_type, e))
        }
        (Node::Sub { map }, J::Object(m)) | (Node::Variant { map, .. }, J::Object(m)) => {
            m.iter().any(|(k, e)| map.get(k).map_or(false, |s| odd_keys(s, e)))
        }
        (Node::Optional { value_type, .. }, e) => odd_keys(value_type, e),
        _ => false,
    }
}

fn any(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = GenCfg { max_depth: t.usize(0, 4), size: t.usize(1, 20), ..GenCfg::default() };
    let spec = Spec(gen_spec(t, &cfg));
    let yaml = to_yaml(&spec.0);
    let j = any_json(t, &spec.0, 8);
    let expect = accepts(&spec.0, &j);
    let got = catch(|| value_util::from_json_value(&j, &spec)).map_err(|e| format!("reading the guess {}: {}\nspec: {}", j, e, yaml))?;
    let text = j.to_string();
    let got_text = catch(|| value_util::from_json_str(&text, &spec))
        .map_err(|e| format!("reading the guess {}: {}\nspec: {}", text, e, yaml))?;
    if odd_keys(&spec.0, &j) {
        ctx.label("a key in a non-canonical spelling (not judged)");
        return Ok(());
    }
    match (&expect, &got) {
        (Ok(()), Err(e)) => return Err(format!("a conforming guess is rejected: {}\nspec: {}\nguess: {}", e, yaml, j)),
        (Err(w), Ok(v)) => {
            return Err(format!("a non-conforming guess is accepted ({})\nspec: {}\nguess: {}\nread as {}", w, yaml, j, show(&v.0)))
        }
        (Ok(()), Ok(v)) => {
            ctx.label("accepted");
            let back = v.to_json();
            let norm = normalise(&spec.0, &j);
            if !equal_under(&spec.0, &norm, &back) {
                return Err(format!("the guess {} is taken as {}\nspec: {}", j, back, yaml));
            }
        }
        (Err(_), Err(_)) => ctx.label("rejected"),
    }
    let reparsed = through_text(&text)?;
    same_as_parsed(&spec, &text, &reparsed, &got_text).map_err(|e| format!("{}\nspec: {}", e, yaml))?;
    if same_json(&reparsed, &j) && got.is_ok() != got_text.is_ok() {
        return Err(format!("the guess {} is judged differently as a document and as text\nspec: {}", text, yaml));
    }
    if count_nodes(&spec.0) > 1 {
        ctx.nontrivial(&format!("{}{}", yaml, j));
        ctx.sample(|| json!({"spec": yaml, "guess": j, "accepted": got.is_ok()}));
    }
    Ok(())
}

/// JSON equality where reals may be written as integers.
fn equal_under(spec: &Node, a: &J, b: &J) -> bool {
    match (spec, a, b) {
        (Node::Real { .. }, J::Number(x), J::Number(y)) => x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits),
        (Node::Sub { map }, J::Object(x), J::Object(y)) | (Node::Variant { map, .. }, J::Object(x), J::Object(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, p)| match (map.get(k), y.get(k)) {
                    (Some(s), Some(q)) => equal_under(s, p, q),
                    _ => false,
                })
        }
        (Node::AnonMap { value_type, .. }, J::Object(x), J::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| equal_under(value_type, p, q)))
        }
        (Node::Array { value_type, .. }, J::Array(x), J::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal_under(value_type, p, q))
        }
        (Node::Optional { value_type, .. }, x, y) if !x.is_null() => equal_under(value_type, x, y),
        _ => same_json(a, b),
    }
}

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        families: vec![
            Family::new("roundtrip", 900000, 15000000, roundtrip, "a generated spec and a conforming value drawn independently of the initial value; to_json against an own encoder, from_json_value and from_json_str (text) against the original, both encodings of maps; non-trivial: more than one node and not the initial value"),
            Family::new("broken", 900000, 15000000, broken, "a conforming guess with exactly one defect at a random position, as a document and as text; must be rejected; non-trivial: the defect was placed (checked non-conforming by the reference predicate)"),
            Family::new("any", 900000, 15000000, any, "JSON shaped loosely by the spec, with stray types, keys, sizes; accepted iff the reference predicate accepts; non-trivial: spec has more than one node"),
            Family::new("own_initial", 60000, 1200000, super::c11run::own_initial, "a generated run (no optional directly around an optional or const) without a guess and with the spec's own initial value as the guess, same objective results; the traces must be equal; non-trivial: some parameter set differs from the initial value").cpu(60),
            Family::new("rejected_before", 400000, 8000000, super::c11run::rejected_before, "a run started with a guess that has one defect must end with an error and without any evaluation; non-trivial: the defect was placed").cpu(60),
            Family::new("reseed", 200000, 4000000, super::c11run::reseed, "the best-seen of a generated run as the guess of a second run must be accepted and be its first parameter set; non-trivial: it differs from the initial value").cpu(60),
            Family::new("binary", 1500, 20000, super::procs::chained, "the real binary: a run, the run again with its own initial value as --initial-guess (must be the same run), and one with the reported line as --initial-guess (must start with it); non-trivial: the reported line is not the initial value").threads(12).shrink(120).cpu(0),
        ],
        assumptions: vec![
            "map keys in non-canonical spelling (\"05\", \"+5\") are not judged",
            "a present optional whose content is encoded as null reads back as absent (same JSON)",
        ],
    }
}
