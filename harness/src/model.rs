//! Reference model of parameter spaces: generator of well-formed specs, YAML writer, independent
//! conformance predicates, generator of conforming values, model of the initial value.
//! `Node` (cambrian's own public spec type) is used only as a data carrier for the declaration.

use crate::tape::Tape;
use cambrian::spec::Node;
use cambrian::value::Node as VNode;
use rustc_hash::FxHashMap;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
    pub max_depth: usize,
    pub size: usize,
    /// weird = keyword-like, quoting-hostile, unicode names
    pub weird_names: bool,
    /// extreme numeric attributes
    pub extremes: bool,
    /// declare enum values twice now and then
    pub dup_enum: bool,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            max_depth: 4,
            size: 24,
            weird_names: true,
            extremes: true,
            dup_enum: true,
        }
    }
}

pub const PLAIN: &[&str] = &["a", "b", "c", "d", "e", "f", "foo", "bar", "x", "y", "z", "w"];
pub const WEIRD: &[&str] = &[
    "typeDefs", "typeDef", "init", "min", "max", "scale", "size", "valueType", "initSize", "minSize",
    "maxSize", "values", "initPresent", "optional", "array", "anon map", "real", "sub", "0", "1",
    "10", "", " ", "a.b", "null", "true", "~", "é", "日本語", "\"q\"", "it's", "a b", "$(x) `y`",
    "-n", "--", "\\", "\n", "{", "[1]", "#c", "a: b", "<<", "😀", "\t", "%s", "objFuncVal",
    "typedef x", "Type", "typeDe", "typeDef\tx", "optional.0", ";", "1e5", "\u{7f}", "&a", "*a", "!t",
    "_x", "__", ".hidden", "$v", "/", "a/b", "..", "Foo", "FOO", "A", "00", "01", "-1", "+1", "1.0", "0x1", "1_000",
    "e\u{301}", "\u{a0}", "\u{200b}", "\u{feff}", "\r", "\r\n", "\u{0}", "\u{85}", "\u{2028}", "NaN", "inf", ".nan", "yes", "no",
    "a_name_of_more_than_sixty_four_characters_as_generated_code_may_well_produce_now_and_then",
];

/// A name easily mistaken for `s`.
pub fn near(t: &mut Tape, s: &str) -> String {
    match t.below(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => {
            let mut c = s.chars();
            c.next().map_or(String::new(), |f| f.to_uppercase().chain(c).collect())
        }
        3 => format!(" {}", s),
        4 => format!("{} ", s),
        5 => format!("{}\n", s),
        6 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        7 => s.chars().skip(1).collect(),
        8 => format!("{}{}", s, s.chars().last().unwrap_or('x')),
        9 => format!("{}\u{0}", s),
        10 => s.replace(' ', "_").replace('é', "e\u{301}"),
        _ => format!("\"{}\"", s),
    }
}

pub fn gen_name(t: &mut Tape, weird: bool) -> String {
    if weird && t.chance(1, 4) {
        t.pick(WEIRD).to_string()
    } else {
        let b = t.pick(PLAIN).to_string();
        if t.chance(1, 8) {
            format!("{}{}", b, t.below(30))
        } else {
            b
        }
    }
}

/// `n` distinct names, none of them in `reserved` (or starting with "typeDef " if asked).
pub fn gen_names(t: &mut Tape, n: usize, weird: bool, ok: impl Fn(&str) -> bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while out.len() < n {
        let mut s = gen_name(t, weird);
        if weird && !out.is_empty() && t.chance(1, 8) {
            // one that differs little from another
            let o = t.pick(&out).clone();
            s = near(t, &o);
        }
        if !ok(&s) || out.contains(&s) {
            s = format!("k{}", i);
            i += 1;
            if out.contains(&s) {
                continue;
            }
        }
        out.push(s);
    }
    out
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

pub fn gen_real(t: &mut Tape, extremes: bool) -> f64 {
    let c = t.weighted(&[6, 4, 4, if extremes { 3 } else { 0 }, 2]);
    let v = match c {
        0 => *t.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 10.0, 100.0, 1e-3]),
        1 => t.unit() * 20.0 - 10.0,
        2 => {
            let m = 1.0 + 9.0 * t.unit();
            let e = t.range(-12, 12) as i32;
            m * 10f64.powi(e)
        }
        3 => *t.pick(&[
            1e100, -1e100, 5e-324, -5e-324, 1e-300, 1e15, -1e15, 9007199254740993.0, 1e-9, -0.0, 1e38,
            2.2250738585072014e-308, 1e99, -1e99, 1e18, -1e18,
        ]),
        _ => (t.range(-1000, 1000) as f64) / 8.0,
    };
    if c != 3 && t.chance(1, 3) {
        -v
    } else {
        v
    }
}

pub fn gen_scale(t: &mut Tape, extremes: bool) -> f64 {
    match t.weighted(&[6, 4, if extremes { 2 } else { 0 }]) {
        0 => *t.pick(&[1.0, 0.1, 10.0, 0.01, 100.0]),
        1 => (1.0 + 9.0 * t.unit()) * 10f64.powi(t.range(-8, 8) as i32),
        _ => *t.pick(&[1e100, 5e-324, 1e-300, 1e-12, 1e12, 1e50, 1e-100]),
    }
}

pub fn gen_int(t: &mut Tape, extremes: bool) -> i64 {
    match t.weighted(&[6, 4, if extremes { 3 } else { 0 }, 2]) {
        0 => *t.pick(&[0, 1, -1, 2, 5, 10, -10, 100]),
        1 => t.range(-1000, 1000),
        2 => *t.pick(&[
            i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 31, -(1 << 31), (1 << 53) + 1,
            -(1 << 53) - 1, 1 << 62, 4611686018427387905, 9223372036854774784, i32::MAX as i64,
        ]),
        _ => t.range(-1_000_000_000, 1_000_000_000),
    }
}

/// Between a and b, which may be further apart than the largest float.
fn between(t: &mut Tape, a: f64, b: f64) -> f64 {
    let u = t.unit();
    a * (1.0 - u) + b * u
}

fn gen_real_node(t: &mut Tape, x: bool) -> Node {
    if x && t.chance(1, 12) {
        // bounds near the ends of the float range, steps of that order
        let ends = [f64::MAX, 1e308, 9e307, 1e307, 8.98e307, 1e300];
        let lo = -*t.pick(&ends);
        let hi = *t.pick(&ends);
        let init = match t.below(4) {
            0 => lo,
            1 => hi,
            2 => 0.0,
            _ => clampf(between(t, lo, hi), Some(lo), Some(hi)),
        };
        let scale = *t.pick(&[1e305, 1e308, f64::MAX, 1e300, 1.0, 1e290]);
        let (min, max) = *t.pick(&[(Some(lo), Some(hi)), (Some(lo), None), (None, Some(hi)), (Some(lo), Some(hi))]);
        return Node::Real { init, scale, min, max };
    }
    let (mut min, mut max) = (None, None);
    match t.weighted(&[3, 4, 2, 2, 1]) {
        0 => {}
        1 => {
            let (a, b) = (gen_real(t, x), gen_real(t, x));
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            min = Some(a);
            max = Some(if a < b { b } else { next_up(a).max(a + a.abs() * 1e-3) });
        }
        2 => min = Some(gen_real(t, x)),
        3 => max = Some(gen_real(t, x)),
        _ => {
            let a = gen_real(t, x);
            min = Some(a);
            max = Some(next_up(a));
        }
    }
    let init = match t.weighted(&[3, 2, 2, 3]) {
        0 => clampf(gen_real(t, x), min, max),
        1 => min.or(max).unwrap_or_else(|| gen_real(t, x)),
        2 => max.or(min).unwrap_or_else(|| gen_real(t, x)),
        _ => match (min, max) {
            (Some(a), Some(b)) => clampf(between(t, a, b), min, max),
            _ => clampf(gen_real(t, x), min, max),
        },
    };
    Node::Real { init, scale: gen_scale(t, x), min, max }
}

pub fn clampf(v: f64, min: Option<f64>, max: Option<f64>) -> f64 {
    let mut v = v;
    if let Some(m) = min {
        if v < m {
            v = m
        }
    }
    if let Some(m) = max {
        if v > m {
            v = m
        }
    }
    v
}

fn gen_int_node(t: &mut Tape, x: bool) -> Node {
    let (mut min, mut max) = (None, None);
    match t.weighted(&[3, 4, 2, 2, 2]) {
        0 => {}
        1 => {
            let (a, b) = (gen_int(t, x), gen_int(t, x));
            let (mut a, mut b) = (a.min(b), a.max(b));
            if a == b {
                if b < i64::MAX {
                    b += 1
                } else {
                    a -= 1
                }
            }
            min = Some(a);
            max = Some(b);
        }
        2 => min = Some(gen_int(t, x)),
        3 => max = Some(gen_int(t, x)),
        _ => {
            let a = gen_int(t, x).min(i64::MAX - 3);
            min = Some(a);
            max = Some(a + 1 + t.below(3) as i64);
        }
    }
    let lo = min.unwrap_or(i64::MIN);
    let hi = max.unwrap_or(i64::MAX);
    let init = match t.weighted(&[4, 2, 2]) {
        0 => gen_int(t, x).clamp(lo, hi),
        1 => min.or(max).unwrap_or_else(|| gen_int(t, x)),
        _ => max.or(min).unwrap_or_else(|| gen_int(t, x)),
    };
    Node::Int { init, scale: gen_scale(t, x), min, max }
}

pub fn gen_spec(t: &mut Tape, cfg: &GenCfg) -> Node {
    gen_node(t, cfg, cfg.max_depth, cfg.size, false)
}

pub fn gen_leaf(t: &mut Tape, cfg: &GenCfg, in_opt: bool) -> Node {
    match t.weighted(&[5, 4, 4, 4, if in_opt { 3 } else { 1 }]) {
        0 => gen_real_node(t, cfg.extremes),
        1 => gen_int_node(t, cfg.extremes),
        2 => Node::Bool { init: t.chance(1, 2) },
        3 => {
            let n = t.usize(2, 5);
            let mut values = gen_names(t, n, cfg.weird_names, |_| true);
            let init = t.pick(&values).clone();
            if cfg.dup_enum && t.chance(1, 10) {
                let d = t.pick(&values).clone();
                values.push(d);
            }
            Node::Enum { values, init }
        }
        _ => Node::Const,
    }
}

pub fn gen_sizes(t: &mut Tape) -> (usize, Option<usize>, Option<usize>) {
    let big = t.chance(1, 8);
    let init_size = if big { t.usize(8, 14) } else { t.usize(0, 4) };
    let mut min_size = None;
    let mut max_size = None;
    match t.weighted(&[3, 2, 3, 3]) {
        0 => {}
        1 => min_size = Some(t.usize(0, init_size)),
        2 => max_size = Some(init_size.max(1) + t.usize(0, 2)),
        _ => {
            let lo = init_size - t.usize(0, init_size.min(2));
            let hi = init_size + t.usize(0, 2);
            min_size = Some(lo);
            max_size = Some(hi.max(lo + 1));
        }
    }
    (init_size, min_size, max_size)
}

pub fn gen_node(t: &mut Tape, cfg: &GenCfg, depth: usize, size: usize, in_opt: bool) -> Node {
    if depth == 0 || size <= 1 {
        return gen_leaf(t, cfg, in_opt);
    }
    match t.weighted(&[4, 4, 2, 4, 3, 3]) {
        0 => gen_leaf(t, cfg, in_opt),
        1 => {
            let n = if t.chance(1, 10) { t.usize(5, 12) } else { t.usize(1, 4.min(size)) };
            let names = gen_names(t, n, cfg.weird_names, |s| s != "type" && !s.starts_with("typeDef "));
            let map = names
                .into_iter()
                .map(|k| (k, Box::new(gen_node(t, cfg, depth - 1, size / n, false))))
                .collect();
            Node::Sub { map }
        }
        2 => {
            let n = match t.below(40) {
                0..=5 => t.usize(6, 13),
                6 if size >= 8 => t.usize(14, 40),
                _ => t.usize(2, 4),
            };
            let value_type = Box::new(if n > 13 { gen_leaf(t, cfg, false) } else { gen_node(t, cfg, depth - 1, size / n, false) });
            Node::Array { size: n, value_type }
        }
        3 => {
            let (init_size, min_size, max_size) = gen_sizes(t);
            let per = (size / init_size.max(2)).max(1);
            Node::AnonMap {
                value_type: Box::new(gen_node(t, cfg, depth - 1, per, false)),
                init_size,
                min_size,
                max_size,
            }
        }
        4 => {
            let n = t.usize(2, 4);
            let names = gen_names(t, n, cfg.weird_names, |s| s != "type" && s != "init");
            let init = t.pick(&names).clone();
            let map = names
                .into_iter()
                .map(|k| (k, Box::new(gen_node(t, cfg, depth - 1, size / 2, false))))
                .collect();
            Node::Variant { map, init }
        }
        _ => Node::Optional {
            init_present: t.chance(1, 2),
            value_type: Box::new(gen_node(t, cfg, depth - 1, size, true)),
        },
    }
}

// ---------------------------------------------------------------- YAML

pub fn yq(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let _ = write!(o, "\\U{:08X}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn yf(v: f64) -> String {
    let s = format!("{:?}", v);
    s
}

fn opt_attr<T: ToString>(o: &mut Vec<String>, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        o.push(format!("{}: {}", k, v.to_string()));
    }
}

/// Sorted keys so the text is a pure function of the declaration.
pub fn sorted(map: &FxHashMap<String, Box<Node>>) -> BTreeMap<&String, &Node> {
    map.iter().map(|(k, v)| (k, v.as_ref())).collect()
}

/// Plain one-line flow-style YAML.
pub fn to_yaml(n: &Node) -> String {
    let mut a: Vec<String> = Vec::new();
    match n {
        Node::Real { init, scale, min, max } => {
            a.push("type: real".into());
            a.push(format!("init: {}", yf(*init)));
            a.push(format!("scale: {}", yf(*scale)));
            opt_attr(&mut a, "min", &min.map(yf));
            opt_attr(&mut a, "max", &max.map(yf));
        }
        Node::Int { init, scale, min, max } => {
            a.push("type: int".into());
            a.push(format!("init: {}", init));
            a.push(format!("scale: {}", yf(*scale)));
            opt_attr(&mut a, "min", min);
            opt_attr(&mut a, "max", max);
        }
        Node::Bool { init } => {
            a.push("type: bool".into());
            a.push(format!("init: {}", init));
        }
        Node::Sub { map } => {
            a.push("type: sub".into());
            for (k, v) in sorted(map) {
                a.push(format!("{}: {}", yq(k), to_yaml(v)));
            }
        }
        Node::Array { value_type, size } => {
            a.push("type: array".into());
            a.push(format!("size: {}", size));
            a.push(format!("valueType: {}", to_yaml(value_type)));
        }
        Node::AnonMap { value_type, init_size, min_size, max_size } => {
            a.push("type: anon map".into());
            a.push(format!("initSize: {}", init_size));
            opt_attr(&mut a, "minSize", min_size);
            opt_attr(&mut a, "maxSize", max_size);
            a.push(format!("valueType: {}", to_yaml(value_type)));
        }
        Node::Variant { map, init } => {
            a.push("type: variant".into());
            a.push(format!("init: {}", yq(init)));
            for (k, v) in sorted(map) {
                a.push(format!("{}: {}", yq(k), to_yaml(v)));
            }
        }
        Node::Enum { values, init } => {
            a.push("type: enum".into());
            a.push(format!("init: {}", yq(init)));
            a.push(format!(
                "values: [{}]",
                values.iter().map(|s| yq(s)).collect::<Vec<_>>().join(", ")
            ));
        }
        Node::Optional { value_type, init_present } => {
            a.push("type: optional".into());
            a.push(format!("initPresent: {}", init_present));
            a.push(format!("valueType: {}", to_yaml(value_type)));
        }
        Node::Const => a.push("type: const".into()),
    }
    format!("{{{}}}", a.join(", "))
}

// ---------------------------------------------------------------- conformance

fn within<T: PartialOrd + std::fmt::Debug>(v: T, min: &Option<T>, max: &Option<T>) -> Result<(), String> {
    if let Some(m) = min {
        if v < *m {
            return Err(format!("{:?} is below min {:?}", v, m));
        }
    }
    if let Some(m) = max {
        if v > *m {
            return Err(format!("{:?} is above max {:?}", v, m));
        }
    }
    Ok(())
}

fn size_ok(n: usize, min: &Option<usize>, max: &Option<usize>) -> Result<(), String> {
    if n < min.unwrap_or(0) {
        return Err(format!("map has {} elements, min size {:?}", n, min));
    }
    if n > max.unwrap_or(usize::MAX) {
        return Err(format!("map has {} elements, max size {:?}", n, max));
    }
    Ok(())
}

pub fn canonical_key(k: &str) -> bool {
    k.parse::<usize>().map(|n| n.to_string() == k).unwrap_or(false)
}

/// Does the JSON document conform to the declaration? (object encoding of resizable maps)
pub fn conforms_json(spec: &Node, v: &J, path: &str) -> Result<(), String> {
    let fail = |m: String| Err(format!("at {}: {}", if path.is_empty() { "(root)" } else { path }, m));
    match (spec, v) {
        (Node::Real { min, max, .. }, J::Number(n)) => match n.as_f64() {
            Some(x) if x.is_finite() => within(x, min, max).or_else(fail),
            _ => fail(format!("non-finite real {}", n)),
        },
        (Node::Int { min, max, .. }, J::Number(n)) => match n.as_i64() {
            Some(x) => within(x, min, max).or_else(fail),
            None => fail(format!("{} is not an integer", n)),
        },
        (Node::Bool { .. }, J::Bool(_)) => Ok(()),
        (Node::Sub { map }, J::Object(m)) => {
            for k in m.keys() {
                if !map.contains_key(k) {
                    return fail(format!("undeclared key {:?}", k));
                }
            }
            for (k, c) in sorted(map) {
                match m.get(k) {
                    None => return fail(format!("declared key {:?} missing", k)),
                    Some(cv) => conforms_json(c, cv, &format!("{}/{}", path, k))?,
                }
            }
            Ok(())
        }
        (Node::Array { value_type, size }, J::Array(a)) => {
            if a.len() != *size {
                return fail(format!("array length {} instead of {}", a.len(), size));
            }
            for (i, e) in a.iter().enumerate() {
                conforms_json(value_type, e, &format!("{}/{}", path, i))?;
            }
            Ok(())
        }
        (Node::AnonMap { value_type, min_size, max_size, .. }, J::Object(m)) => {
            size_ok(m.len(), min_size, max_size).or_else(fail)?;
            for (k, e) in m {
                if !canonical_key(k) {
                    return fail(format!("map key {:?} is not an unsigned integer", k));
                }
                conforms_json(value_type, e, &format!("{}/{}", path, k))?;
            }
            Ok(())
        }
        (Node::Variant { map, .. }, J::Object(m)) => {
            if m.len() != 1 {
                return fail(format!("variant with {} options", m.len()));
            }
            let (k, e) = m.iter().next().unwrap();
            match map.get(k) {
                None => fail(format!("undeclared option {:?}", k)),
                Some(c) => conforms_json(c, e, &format!("{}/{}", path, k)),
            }
        }
        (Node::Enum { values, .. }, J::String(s)) => {
            if values.contains(s) {
                Ok(())
            } else {
                fail(format!("undeclared enum value {:?}", s))
            }
        }
        (Node::Optional { .. }, J::Null) => Ok(()),
        (Node::Optional { value_type, .. }, v) => conforms_json(value_type, v, &format!("{}/?", path)),
        (Node::Const, J::Null) => Ok(()),
        _ => fail(format!("{} does not have the declared kind {}", v, kind(spec))),
    }
}

pub fn kind(n: &Node) -> &'static str {
    match n {
        Node::Real { .. } => "real",
        Node::Int { .. } => "int",
        Node::Bool { .. } => "bool",
        Node::Sub { .. } => "sub",
        Node::Array { .. } => "array",
        Node::AnonMap { .. } => "anon map",
        Node::Variant { .. } => "variant",
        Node::Enum { .. } => "enum",
        Node::Optional { .. } => "optional",
        Node::Const => "const",
    }
}

pub fn vkind(n: &VNode) -> &'static str {
    match n {
        VNode::Real(_) => "real",
        VNode::Int(_) => "int",
        VNode::Bool(_) => "bool",
        VNode::Sub(_) => "sub",
        VNode::Array(_) => "array",
        VNode::AnonMap(_) => "anon map",
        VNode::Variant(..) => "variant",
        VNode::Enum(_) => "enum",
        VNode::Optional(_) => "optional",
        VNode::Const => "const",
    }
}

pub fn conforms_value(spec: &Node, v: &VNode, path: &str) -> Result<(), String> {
    let fail = |m: String| Err(format!("at {}: {}", if path.is_empty() { "(root)" } else { path }, m));
    match (spec, v) {
        (Node::Real { min, max, .. }, VNode::Real(x)) => {
            if !x.is_finite() {
                fail(format!("non-finite real {}", x))
            } else {
                within(*x, min, max).or_else(fail)
            }
        }
        (Node::Int { min, max, .. }, VNode::Int(x)) => within(*x, min, max).or_else(fail),
        (Node::Bool { .. }, VNode::Bool(_)) => Ok(()),
        (Node::Sub { map }, VNode::Sub(m)) => {
            for k in m.keys() {
                if !map.contains_key(k) {
                    return fail(format!("undeclared key {:?}", k));
                }
            }
            for (k, c) in sorted(map) {
                match m.get(k) {
                    None => return fail(format!("declared key {:?} missing", k)),
                    Some(cv) => conforms_value(c, cv, &format!("{}/{}", path, k))?,
                }
            }
            Ok(())
        }
        (Node::Array { value_type, size }, VNode::Array(a)) => {
            if a.len() != *size {
                return fail(format!("array length {} instead of {}", a.len(), size));
            }
            for (i, e) in a.iter().enumerate() {
                conforms_value(value_type, e, &format!("{}/{}", path, i))?;
            }
            Ok(())
        }
        (Node::AnonMap { value_type, min_size, max_size, .. }, VNode::AnonMap(m)) => {
            size_ok(m.len(), min_size, max_size).or_else(fail)?;
            let keys: BTreeSet<usize> = m.keys().copied().collect();
            for k in keys {
                conforms_value(value_type, &m[&k], &format!("{}/{}", path, k))?;
            }
            Ok(())
        }
        (Node::Variant { map, .. }, VNode::Variant(k, e)) => match map.get(k) {
            None => fail(format!("undeclared option {:?}", k)),
            Some(c) => conforms_value(c, e, &format!("{}/{}", path, k)),
        },
        (Node::Enum { values, .. }, VNode::Enum(s)) => {
            if values.contains(s) {
                Ok(())
            } else {
                fail(format!("undeclared enum value {:?}", s))
            }
        }
        (Node::Optional { .. }, VNode::Optional(None)) => Ok(()),
        (Node::Optional { value_type, .. }, VNode::Optional(Some(v))) => {
            conforms_value(value_type, v, &format!("{}/?", path))
        }
        (Node::Const, VNode::Const) => Ok(()),
        _ => fail(format!("a {} value where the declaration says {}", vkind(v), kind(spec))),
    }
}

// ---------------------------------------------------------------- values

/// A conforming value, independent of the initial value.
pub fn gen_value(t: &mut Tape, spec: &Node) -> VNode {
    match spec {
        Node::Real { init, min, max, .. } => VNode::Real(match t.weighted(&[3, 1, 1, 3, 2]) {
            0 => *init,
            1 => min.unwrap_or(*init),
            2 => max.unwrap_or(*init),
            3 => match (min, max) {
                (Some(a), Some(b)) => clampf(between(t, *a, *b), *min, *max),
                _ => clampf(gen_real(t, true), *min, *max),
            },
            _ => clampf(gen_real(t, true), *min, *max),
        }),
        Node::Int { init, min, max, .. } => {
            let lo = min.unwrap_or(i64::MIN);
            let hi = max.unwrap_or(i64::MAX);
            VNode::Int(match t.weighted(&[3, 1, 1, 4]) {
                0 => *init,
                1 => min.unwrap_or(*init),
                2 => max.unwrap_or(*init),
                _ => gen_int(t, true).clamp(lo, hi),
            })
        }
        Node::Bool { .. } => VNode::Bool(t.chance(1, 2)),
        Node::Sub { map } => VNode::Sub(
            sorted(map).into_iter().map(|(k, c)| (k.clone(), Box::new(gen_value(t, c)))).collect(),
        ),
        Node::Array { value_type, size } => {
            VNode::Array((0..*size).map(|_| Box::new(gen_value(t, value_type))).collect())
        }
        Node::AnonMap { value_type, min_size, max_size, init_size } => {
            let lo = min_size.unwrap_or(0);
            let hi = max_size.unwrap_or(lo.max(*init_size) + 2).min(lo + 8).max(lo);
            let n = t.usize(lo, hi);
            let mut m = FxHashMap::default();
            let keys = t.weighted(&[12, 11, 1]);
            let mut i = 0usize;
            while m.len() < n {
                let k = match keys {
                    0 => i,
                    1 => t.below(3 * n as u64 + 4) as usize,
                    _ => match t.below(4) {
                        0 => usize::MAX - t.below(3) as usize,
                        1 => (1usize << t.usize(8, 63)) - t.below(2) as usize,
                        2 => t.below(u64::MAX) as usize,
                        _ => t.usize(1 << 20, 1 << 21),
                    },
                };
                i += 1;
                let k = if m.contains_key(&k) { 1000 + i } else { k };
                let v = gen_value(t, value_type);
                m.insert(k, Box::new(v));
            }
            VNode::AnonMap(m)
        }
        Node::Variant { map, .. } => {
            let keys: Vec<String> = sorted(map).keys().map(|s| s.to_string()).collect();
            let k = t.pick(&keys).clone();
            let v = gen_value(t, &map[&k]);
            VNode::Variant(k, Box::new(v))
        }
        Node::Enum { values, .. } => VNode::Enum(t.pick(values).clone()),
        Node::Optional { value_type, .. } => {
            if t.chance(2, 3) {
                VNode::Optional(Some(Box::new(gen_value(t, value_type))))
            } else {
                VNode::Optional(None)
            }
        }
        Node::Const => VNode::Const,
    }
}

/// Model of the initial value (own recursion, does not call Spec::initial_value).
pub fn init_value(spec: &Node) -> VNode {
    match spec {
        Node::Real { init, .. } => VNode::Real(*init),
        Node::Int { init, .. } => VNode::Int(*init),
        Node::Bool { init } => VNode::Bool(*init),
        Node::Sub { map } => {
            VNode::Sub(map.iter().map(|(k, c)| (k.clone(), Box::new(init_value(c)))).collect())
        }
        Node::Array { value_type, size } => {
            VNode::Array((0..*size).map(|_| Box::new(init_value(value_type))).collect())
        }
        Node::AnonMap { value_type, init_size, .. } => VNode::AnonMap(
            (0..*init_size).map(|k| (k, Box::new(init_value(value_type)))).collect(),
        ),
        Node::Variant { map, init } => VNode::Variant(init.clone(), Box::new(init_value(&map[init]))),
        Node::Enum { init, .. } => VNode::Enum(init.clone()),
        Node::Optional { value_type, init_present } => {
            VNode::Optional(if *init_present { Some(Box::new(init_value(value_type))) } else { None })
        }
        Node::Const => VNode::Const,
    }
}

/// Own JSON encoding of a value (does not call Value::to_json).
pub fn json_of(v: &VNode) -> J {
    match v {
        VNode::Real(x) => json!(x),
        VNode::Int(x) => json!(x),
        VNode::Bool(b) => json!(b),
        VNode::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), json_of(v))).collect()),
        VNode::Array(a) => J::Array(a.iter().map(|v| json_of(v)).collect()),
        VNode::AnonMap(m) => J::Object(m.iter().map(|(k, v)| (k.to_string(), json_of(v))).collect()),
        VNode::Variant(k, v) => {
            let mut m = serde_json::Map::new();
            m.insert(k.clone(), json_of(v));
            J::Object(m)
        }
        VNode::Enum(s) => json!(s),
        VNode::Optional(None) => J::Null,
        VNode::Optional(Some(v)) => json_of(v),
        VNode::Const => J::Null,
    }
}

pub fn count_nodes(n: &Node) -> usize {
    1 + match n {
        Node::Sub { map } | Node::Variant { map, .. } => map.values().map(|c| count_nodes(c)).sum(),
        Node::Array { value_type, .. }
        | Node::AnonMap { value_type, .. }
        | Node::Optional { value_type, .. } => count_nodes(value_type),
        _ => 0,
    }
}

pub fn kinds_in(n: &Node, out: &mut BTreeSet<&'static str>) {
    out.insert(kind(n));
    match n {
        Node::Sub { map } | Node::Variant { map, .. } => map.values().for_each(|c| kinds_in(c, out)),
        Node::Array { value_type, .. }
        | Node::AnonMap { value_type, .. }
        | Node::Optional { value_type, .. } => kinds_in(value_type, out),
        _ => {}
    }
}

// ---------------------------------------------------------------- JSON text

/// Parses JSON with correctly rounded numbers (serde_json's default parser is off by an ulp now
/// and then). Strict; None for anything that is not exactly one document.
pub fn parse_json(s: &str) -> Option<J> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = json_value(&c, &mut i, 0)?;
    json_space(&c, &mut i);
    (i == c.len()).then_some(v)
}

fn json_space(c: &[char], i: &mut usize) {
    while matches!(c.get(*i), Some(' ' | '\t' | '\n' | '\r')) {
        *i += 1;
    }
}

fn json_string(c: &[char], i: &mut usize) -> Option<String> {
    let mut units: Vec<u16> = Vec::new();
    *i += 1;
    loop {
        let ch = *c.get(*i)?;
        *i += 1;
        match ch {
            '"' => return String::from_utf16(&units).ok(),
            '\\' => {
                let e = *c.get(*i)?;
                *i += 1;
                let u = match e {
                    '"' | '\\' | '/' => e as u16,
                    'b' => 8,
                    'f' => 12,
                    'n' => 10,
                    'r' => 13,
                    't' => 9,
                    'u' => {
                        let h: String = c.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        if !h.chars().all(|x| x.is_ascii_hexdigit()) {
                            return None;
                        }
                        u16::from_str_radix(&h, 16).ok()?
                    }
                    _ => return None,
                };
                units.push(u);
            }
            ch if (ch as u32) < 0x20 => return None,
            ch => {
                let mut b = [0u16; 2];
                units.extend_from_slice(ch.encode_utf16(&mut b));
            }
        }
    }
}

fn json_value(c: &[char], i: &mut usize, depth: usize) -> Option<J> {
    if depth > 300 {
        return None;
    }
    json_space(c, i);
    match *c.get(*i)? {
        '{' => {
            let mut m = serde_json::Map::new();
            *i += 1;
            json_space(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Some(J::Object(m));
            }
            loop {
                json_space(c, i);
                if c.get(*i) != Some(&'"') {
                    return None;
                }
                let k = json_string(c, i)?;
                json_space(c, i);
                if c.get(*i) != Some(&':') {
                    return None;
                }
                *i += 1;
                let v = json_value(c, i, depth + 1)?;
                if m.insert(k, v).is_some() {
                    return None; // duplicate keys count as malformed here
                }
                json_space(c, i);
                let d = *c.get(*i)?;
                *i += 1;
                match d {
                    ',' => {}
                    '}' => return Some(J::Object(m)),
                    _ => return None,
                }
            }
        }
        '[' => {
            let mut a = Vec::new();
            *i += 1;
            json_space(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Some(J::Array(a));
            }
            loop {
                a.push(json_value(c, i, depth + 1)?);
                json_space(c, i);
                let d = *c.get(*i)?;
                *i += 1;
                match d {
                    ',' => {}
                    ']' => return Some(J::Array(a)),
                    _ => return None,
                }
            }
        }
        '"' => json_string(c, i).map(J::String),
        '-' | '0'..='9' => {
            let from = *i;
            let digits = |i: &mut usize| {
                let s = *i;
                while matches!(c.get(*i), Some('0'..='9')) {
                    *i += 1;
                }
                *i - s
            };
            if c[*i] == '-' {
                *i += 1;
            }
            let zero = c.get(*i) == Some(&'0');
            let n = digits(i);
            if n == 0 || (zero && n > 1) {
                return None;
            }
            let mut integral = true;
            if c.get(*i) == Some(&'.') {
                integral = false;
                *i += 1;
                if digits(i) == 0 {
                    return None;
                }
            }
            if matches!(c.get(*i), Some('e' | 'E')) {
                integral = false;
                *i += 1;
                if matches!(c.get(*i), Some('+' | '-')) {
                    *i += 1;
                }
                if digits(i) == 0 {
                    return None;
                }
            }
            let text: String = c[from..*i].iter().collect();
            if integral && text != "-0" {
                if let Ok(n) = text.parse::<i64>() {
                    return Some(json!(n));
                }
                if let Ok(n) = text.parse::<u64>() {
                    return Some(json!(n));
                }
            }
            let x: f64 = text.parse().ok()?;
            x.is_finite().then(|| json!(x))
        }
        _ => {
            for (w, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                if c.len() >= *i + w.len() && c[*i..*i + w.len()].iter().collect::<String>() == w {
                    *i += w.len();
                    return Some(v);
                }
            }
            None
        }
    }
}

/// The objective value a child's output stands for: Some(Some) accepted, Some(None) rejected, None
/// neither.
pub fn child_verdict(out: &[u8]) -> Option<Option<f64>> {
    match parse_json(std::str::from_utf8(out).ok()?)? {
        J::Object(m) => match (m.len(), m.get("objFuncVal")) {
            (0, _) | (1, Some(J::Null)) => Some(None),
            (1, Some(J::Number(n))) => n.as_f64().map(Some),
            _ => None,
        },
        _ => None,
    }
}
