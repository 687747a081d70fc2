//! Spec documents: generated well-formed documents with type definitions together with the
//! parameter space they denote, single-rule violations of them, attribute soups, and an
//! independent reference reader of spec documents.

use crate::model::*;
use crate::tape::Tape;
use cambrian::spec::Node;
use rustc_hash::FxHashMap;
use std::fmt::Write;

/// A YAML tree ready to be printed; maps remember which declaration kind they are.
#[derive(Clone, Debug)]
pub enum Y {
    Map(Vec<(String, Y)>, &'static str),
    Seq(Vec<Y>),
    /// Raw scalar text.
    Raw(String),
    Str(String),
}

pub const BUILTIN: &[&str] =
    &["real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const"];

/// Marks a key that is printed as it is.
const RAW_KEY: &str = "\u{1}raw:";

fn plain_ok(s: &str) -> bool {
    !s.is_empty()
        && s.chars().all(|c| c.is_ascii_alphabetic())
        && !["null", "true", "false", "yes", "no", "on", "off", "y", "n", "inf", "nan", "Null", "True", "False"]
            .contains(&s.to_ascii_lowercase().as_str())
}

fn scalar_str(t: &mut Tape, s: &str) -> String {
    // a key that is not a string
    if let Some(raw) = s.strip_prefix(RAW_KEY) {
        return raw.to_string();
    }
    if plain_ok(s) && t.chance(1, 2) {
        s.to_string()
    } else if t.chance(1, 4) && s.chars().all(|c| (' '..='~').contains(&c)) {
        format!("'{}'", s.replace('\'', "''"))
    } else {
        yq(s)
    }
}

pub fn print_flow(t: &mut Tape, y: &Y, o: &mut String) {
    match y {
        Y::Map(m, _) => {
            o.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                let ks = scalar_str(t, k);
                o.push_str(&ks);
                o.push_str(": ");
                print_flow(t, v, o);
            }
            o.push('}');
        }
        Y::Seq(s) => {
            o.push('[');
            for (i, v) in s.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                print_flow(t, v, o);
            }
            o.push(']');
        }
        Y::Raw(s) => o.push_str(s),
        Y::Str(s) => {
            let q = scalar_str(t, s);
            o.push_str(&q);
        }
    }
}

/// Block style down to `depth`, flow below.
pub fn print_doc(t: &mut Tape, y: &Y, indent: usize, o: &mut String) {
    match y {
        Y::Map(m, _) if !m.is_empty() => {
            for (k, v) in m {
                let ks = scalar_str(t, k);
                let _ = write!(o, "{:indent$}{}:", "", ks, indent = indent);
                match v {
                    Y::Map(inner, _) if !inner.is_empty() && t.chance(1, 2) => {
                        o.push('\n');
                        let step = 1 + t.below(4) as usize;
                        print_doc(t, v, indent + step, o);
                    }
                    _ => {
                        o.push(' ');
                        print_flow(t, v, o);
                        o.push('\n');
                    }
                }
            }
        }
        _ => {
            print_flow(t, y, o);
            o.push('\n');
        }
    }
}

pub fn print_any(t: &mut Tape, y: &Y) -> String {
    let mut o = String::new();
    if t.chance(1, 2) {
        print_doc(t, y, 0, &mut o);
    } else {
        print_flow(t, y, &mut o);
        o.push('\n');
    }
    o
}

fn num_f(t: &mut Tape, v: f64) -> Y {
    // all spellings denote the same double
    let s = if v == v.trunc() && v.abs() < 1e15 && t.chance(1, 2) {
        if v == 0.0 && v.is_sign_negative() {
            "-0.0".to_string()
        } else {
            format!("{}", v as i64)
        }
    } else if t.chance(1, 4) {
        format!("{:e}", v)
    } else {
        yf(v)
    };
    // YAML core schema needs a dot or an exponent sign for some readers; keep to spellings that
    // read back as the same double.
    match serde_yaml::from_str::<serde_yaml::Value>(&s).ok().and_then(|x| x.as_f64()) {
        Some(x) if x.to_bits() == v.to_bits() || x == v => Y::Raw(s),
        _ => Y::Raw(yf(v)),
    }
}

fn kv(k: &str, v: Y) -> (String, Y) {
    (k.to_string(), v)
}

fn ty(s: &str) -> (String, Y) {
    kv("type", Y::Str(s.to_string()))
}

fn leaf_y(t: &mut Tape, n: &Node) -> Y {
    let k = kind(n);
    let mut m = vec![ty(k)];
    match n {
        Node::Real { init, scale, min, max } => {
            m.push(kv("init", num_f(t, *init)));
            m.push(kv("scale", num_f(t, *scale)));
            if let Some(x) = min {
                m.push(kv("min", num_f(t, *x)));
            }
            if let Some(x) = max {
                m.push(kv("max", num_f(t, *x)));
            }
        }
        Node::Int { init, scale, min, max } => {
            m.push(kv("init", Y::Raw(init.to_string())));
            m.push(kv("scale", num_f(t, *scale)));
            if let Some(x) = min {
                m.push(kv("min", Y::Raw(x.to_string())));
            }
            if let Some(x) = max {
                m.push(kv("max", Y::Raw(x.to_string())));
            }
        }
        Node::Bool { init } => m.push(kv("init", Y::Raw(init.to_string()))),
        Node::Enum { values, init } => {
            m.push(kv("init", Y::Str(init.clone())));
            m.push(kv("values", Y::Seq(values.iter().map(|s| Y::Str(s.clone())).collect())));
        }
        Node::Const => {}
        _ => unreachable!(),
    }
    t.shuffle(&mut m);
    Y::Map(m, k)
}

type Env = Vec<(String, Node)>;

fn lookup<'a>(env: &'a Env, name: &str) -> Option<&'a Node> {
    env.iter().rev().find(|(n, _)| n == name).map(|(_, x)| x)
}

const DEF_NAMES: &[&str] = &["T", "U", "V", "foo", "a", "real2", "anon_map", "my type", "", "typeDef", "é", "init", "type", "Sub", "REAL", "Array", "optionaL", "ANON MAP"];

pub struct DocStats {
    pub defs: usize,
    pub refs: usize,
    pub shadowing: usize,
    pub nodes: usize,
}

/// A document and the parameter space it denotes.
pub fn gen_doc(t: &mut Tape, cfg: &GenCfg, st: &mut DocStats) -> (Y, Node) {
    gen_d(t, cfg, cfg.max_depth, cfg.size, &Vec::new(), st, false)
}

fn gen_d(t: &mut Tape, cfg: &GenCfg, depth: usize, size: usize, env: &Env, st: &mut DocStats, in_opt: bool) -> (Y, Node) {
    st.nodes += 1;
    if !env.is_empty() && t.chance(2, 5) {
        let i = t.below(env.len() as u64) as usize;
        let name = env[i].0.clone();
        let node = lookup(env, &name).unwrap().clone();
        if count_nodes(&node) <= 60 {
            st.refs += 1;
            return (Y::Map(vec![ty(&name)], "ref"), node);
        }
    }
    if depth == 0 || size <= 1 {
        let n = gen_leaf(t, cfg, in_opt);
        return (leaf_y(t, &n), n);
    }
    match t.weighted(&[3, 6, 2, 3, 3, 3]) {
        0 => {
            let n = gen_leaf(t, cfg, in_opt);
            (leaf_y(t, &n), n)
        }
        1 => {
            let nd = if t.chance(1, 2) { t.usize(1, 3) } else { 0 };
            let mut def_names: Vec<String> = Vec::new();
            for _ in 0..nd {
                let s = if !env.is_empty() && t.chance(1, 3) {
                    env[t.below(env.len() as u64) as usize].0.clone()
                } else {
                    t.pick(DEF_NAMES).to_string()
                };
                if !def_names.contains(&s) {
                    if lookup(env, &s).is_some() {
                        st.shadowing += 1;
                    }
                    def_names.push(s);
                }
            }
            let mut inner: Env = env.iter().filter(|(n, _)| !def_names.contains(n)).cloned().collect();
            let mut defs = Vec::new();
            for name in &def_names {
                st.defs += 1;
                let (y, n) = gen_d(t, cfg, depth - 1, size / 3, &inner, st, false);
                inner.push((name.clone(), n));
                defs.push((format!("typeDef {}", name), y));
            }
            let n = t.usize(1, 4.min(size));
            let names = gen_names(t, n, cfg.weird_names, |s| s != "type" && !s.starts_with("typeDef "));
            let mut map = FxHashMap::default();
            let mut members = Vec::new();
            for k in names {
                let (y, c) = gen_d(t, cfg, depth - 1, size / n, &inner, st, false);
                map.insert(k.clone(), Box::new(c));
                members.push((k, y));
            }
            if t.chance(1, 2) {
                members.push(ty("sub"));
            }
            t.shuffle(&mut members);
            // definitions keep their order but may be anywhere among the members
            let mut out = members;
            let mut pos = 0;
            for d in defs {
                pos += t.below((out.len() - pos) as u64 + 1) as usize;
                out.insert(pos, d);
                pos += 1;
            }
            (Y::Map(out, "sub"), Node::Sub { map })
        }
        2 => {
            let n = if t.chance(1, 8) { t.usize(6, 13) } else { t.usize(2, 4) };
            let (y, c) = gen_d(t, cfg, depth - 1, size / n, env, st, false);
            let mut m = vec![ty("array"), kv("size", Y::Raw(n.to_string())), kv("valueType", y)];
            t.shuffle(&mut m);
            (Y::Map(m, "array"), Node::Array { value_type: Box::new(c), size: n })
        }
        3 => {
            let (init_size, min_size, max_size) = gen_sizes(t);
            let (y, c) = gen_d(t, cfg, depth - 1, (size / init_size.max(2)).max(1), env, st, false);
            let mut m = vec![ty("anon map"), kv("initSize", Y::Raw(init_size.to_string())), kv("valueType", y)];
            if let Some(x) = min_size {
                m.push(kv("minSize", Y::Raw(x.to_string())));
            }
            if let Some(x) = max_size {
                m.push(kv("maxSize", Y::Raw(x.to_string())));
            }
            t.shuffle(&mut m);
            (Y::Map(m, "anon map"), Node::AnonMap { value_type: Box::new(c), init_size, min_size, max_size })
        }
        4 => {
            let n = t.usize(2, 4);
            let names = gen_names(t, n, cfg.weird_names, |s| {
                s != "type" && s != "init" && !s.starts_with("typeDef ")
            });
            let init = t.pick(&names).clone();
            let mut map = FxHashMap::default();
            let mut m = vec![ty("variant"), kv("init", Y::Str(init.clone()))];
            for k in names {
                let (y, c) = gen_d(t, cfg, depth - 1, size / 2, env, st, false);
                map.insert(k.clone(), Box::new(c));
                m.push((k, y));
            }
            t.shuffle(&mut m);
            (Y::Map(m, "variant"), Node::Variant { map, init })
        }
        _ => {
            let init_present = t.chance(1, 2);
            let (y, c) = gen_d(t, cfg, depth - 1, size, env, st, true);
            let mut m =
                vec![ty("optional"), kv("initPresent", Y::Raw(init_present.to_string())), kv("valueType", y)];
            t.shuffle(&mut m);
            (Y::Map(m, "optional"), Node::Optional { value_type: Box::new(c), init_present })
        }
    }
}

/// The document inside up to 24 more layers of containers, with the space that denotes.
pub fn wrap(t: &mut Tape, mut y: Y, mut n: Node) -> (Y, Node) {
    let layers = t.usize(1, 24);
    let mut arrays = 0;
    for _ in 0..layers {
        let kind = t.below(6);
        (y, n) = match kind {
            0 if arrays < 3 => {
                arrays += 1;
                let mut m = vec![ty("array"), kv("size", raw("2")), kv("valueType", y)];
                t.shuffle(&mut m);
                (Y::Map(m, "array"), Node::Array { size: 2, value_type: Box::new(n) })
            }
            1 => {
                let mut m = vec![ty("optional"), kv("initPresent", raw("true")), kv("valueType", y)];
                t.shuffle(&mut m);
                (Y::Map(m, "optional"), Node::Optional { init_present: true, value_type: Box::new(n) })
            }
            2 => {
                let mut m = vec![ty("anon map"), kv("initSize", raw("1")), kv("valueType", y)];
                t.shuffle(&mut m);
                (Y::Map(m, "anon map"), Node::AnonMap { init_size: 1, min_size: None, max_size: None, value_type: Box::new(n) })
            }
            3 => {
                let mut m = vec![ty("variant"), kv("init", Y::Str("x".into())), kv("x", y), kv("y", Y::Map(vec![ty("const")], "const"))];
                t.shuffle(&mut m);
                let map = [("x".to_string(), Box::new(n)), ("y".to_string(), Box::new(Node::Const))].into_iter().collect();
                (Y::Map(m, "variant"), Node::Variant { map, init: "x".into() })
            }
            _ => {
                let k = t.pick(PLAIN).to_string();
                (Y::Map(vec![kv(&k, y)], "sub"), Node::Sub { map: [(k, Box::new(n))].into_iter().collect() })
            }
        };
    }
    (y, n)
}

// ------------------------------------------------------------ rule violations

/// Paths of all declaration maps in the tree.
fn decl_paths(y: &Y, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'static str)>) {
    if let Y::Map(m, k) = y {
        out.push((cur.clone(), k));
        for (i, (_, v)) in m.iter().enumerate() {
            cur.push(i);
            decl_paths(v, cur, out);
            cur.pop();
        }
    }
}

fn at<'a>(y: &'a mut Y, path: &[usize]) -> &'a mut Y {
    match path.split_first() {
        None => y,
        Some((i, rest)) => match y {
            Y::Map(m, _) => at(&mut m[*i].1, rest),
            _ => unreachable!(),
        },
    }
}

fn set(m: &mut Vec<(String, Y)>, k: &str, v: Y) {
    match m.iter_mut().find(|(n, _)| n == k) {
        Some(e) => e.1 = v,
        None => m.push((k.to_string(), v)),
    }
}
fn unset(m: &mut Vec<(String, Y)>, k: &str) {
    m.retain(|(n, _)| n != k)
}
fn raw(s: impl ToString) -> Y {
    Y::Raw(s.to_string())
}

/// Breaks exactly one rule somewhere; returns a description.
pub fn break_one(t: &mut Tape, y: &mut Y) -> String {
    let mut paths = Vec::new();
    decl_paths(y, &mut Vec::new(), &mut paths);
    let (path, kind) = paths[t.below(paths.len() as u64) as usize].clone();
    let root = path.is_empty();
    let Y::Map(m, _) = at(y, &path) else { unreachable!() };
    let r = t.below(1000);
    let nonfinite = [".inf", "-.inf", ".nan"][t.below(3) as usize];
    // violations available for every kind
    if r < 150 || matches!(kind, "const" | "bool" | "ref") && r < 700 {
        match t.below(6) {
            4 => {
                let k = *t.pick(&["5", "true", "null", "1.5", "[a]", "{a: b}", "-1", "0"]);
                let v = [raw("5"), raw("null"), Y::Map(vec![ty("const")], "const"), Y::Map(vec![ty("bool"), kv("init", raw("true"))], "bool")];
                let at = t.below(m.len() as u64 + 1) as usize;
                m.insert(at, (format!("{}{}", RAW_KEY, k), t.pick(&v).clone()));
                return format!("a key that is not a string in a {}", kind);
            }
            5 => {
                // almost the name that is meant
                let names: Vec<usize> = (0..m.len()).filter(|i| m[*i].0 == "type" || matches!((kind, m[*i].0.as_str()), ("enum" | "variant", "init"))).collect();
                if kind == "sub" || kind == "variant" || t.chance(1, 2) {
                    if names.is_empty() {
                        set(m, "type", Y::Str("Sub".into()));
                        return "almost: a type name".into();
                    }
                    let i = *t.pick(&names);
                    if let Y::Str(s) = &m[i].1 {
                        let s = near(t, &s.clone());
                        m[i].1 = Y::Str(s);
                    }
                    return format!("almost: {} of a {}", m[i].0, kind);
                }
                let i = t.below(m.len() as u64) as usize;
                m[i].0 = near(t, &m[i].0.clone());
                return format!("almost: an attribute of a {}", kind);
            }
            0 if kind != "sub" && kind != "variant" => {
                set(m, "unknownAttr", raw("1"));
                return format!("unknown attribute in a {}", kind);
            }
            1 => {
                set(m, "type", Y::Str("no_such_type".into()));
                return format!("unknown type name instead of {}", kind);
            }
            2 if !root && kind != "ref" => {
                *at(y, &path) = [raw("5"), raw("null"), Y::Seq(vec![]), raw("foo")][t.below(4) as usize].clone();
                return format!("a declaration of kind {} replaced by a non-map", kind);
            }
            _ => {
                // spelling differs from the built-in name, or the name is not a string
                let mut bad = vec![raw("5"), raw("true"), raw("null"), raw("[sub]")];
                let names = ["Real", "anonmap", " int", "array ", "Bool", "Const", "SUB", "Anon Map", "Enum", "Variant", "Optional", "INT", "anon  map", "anonMap", "list", "float", "integer", "boolean"];
                bad.extend(names.iter().map(|n| Y::Str(n.to_string())));
                set(m, "type", bad[t.below(bad.len() as u64) as usize].clone());
                return format!("misspelt type name instead of {}", kind);
            }
        }
    }
    match kind {
        "real" => match t.below(9) {
            0 => {
                let same = *t.pick(&["5.0", "0.0", "-1e-300", "1e308", "0.1"]);
                set(m, "min", raw(same));
                set(m, "max", raw(same));
                set(m, "init", raw(same));
                "real: min equals max".into()
            }
            1 => {
                let (min, max, init) = *t.pick(&[("5.0", "4.5", "4.75"), ("0.3", "0.29999999999999993", "0.3"), ("5e-324", "0.0", "0.0"), ("1e308", "-1e308", "0.0")]);
                set(m, "min", raw(min));
                set(m, "max", raw(max));
                set(m, "init", raw(init));
                "real: min above max".into()
            }
            2 => {
                unset(m, "max");
                let (min, init) = *t.pick(&[("5.0", "4.999"), ("0.3", "0.29999999999999993"), ("5e-324", "0.0"), ("9007199254740994.0", "9007199254740993"), ("-1e308", "-1.0000000000000002e308")]);
                set(m, "min", raw(min));
                set(m, "init", raw(init));
                "real: init below min".into()
            }
            3 => {
                unset(m, "min");
                let (max, init) = *t.pick(&[("5.0", "5.0000001"), ("0.29999999999999993", "0.3"), ("0.0", "5e-324"), ("1.0", "1.0000000000000002"), ("1e308", "1.0000000000000002e308")]);
                set(m, "max", raw(max));
                set(m, "init", raw(init));
                "real: init above max".into()
            }
            4 => {
                let k = ["init", "scale", "min", "max"][t.below(4) as usize];
                set(m, k, raw(nonfinite));
                format!("real: {} is {}", k, nonfinite)
            }
            5 => {
                let v = ["0", "0.0", "-1.0", "-0.0", "-1e-300"][t.below(5) as usize];
                set(m, "scale", raw(v));
                format!("real: scale {}", v)
            }
            6 => {
                let k = ["init", "scale", "min", "max"][t.below(4) as usize];
                set(m, k, [raw("true"), raw("foo"), raw("[]"), raw("{}"), raw("null")][t.below(5) as usize].clone());
                format!("real: {} is not a number", k)
            }
            7 => {
                set(m, "min", raw("-1.0"));
                set(m, "max", raw("1.0"));
                set(m, "init", raw(["2.0", "-2.0", "1e300"][t.below(3) as usize]));
                "real: init outside both bounds".into()
            }
            _ => {
                set(m, "Min", raw("0"));
                "real: attribute with wrong capitalisation".into()
            }
        },
        "int" => match t.below(9) {
            0 => {
                set(m, "min", raw("5"));
                set(m, "max", raw("5"));
                set(m, "init", raw("5"));
                "int: min equals max".into()
            }
            1 => {
                let (min, max, init) = *t.pick(&[
                    ("5", "3", "4"),
                    ("9007199254740993", "9007199254740992", "9007199254740992"),
                    ("9223372036854775807", "9223372036854775806", "9223372036854775806"),
                ]);
                set(m, "min", raw(min));
                set(m, "max", raw(max));
                set(m, "init", raw(init));
                "int: min above max".into()
            }
            2 => {
                unset(m, "max");
                // also where neighbouring integers are the same float
                let (min, init) = *t.pick(&[
                    ("5", "4"),
                    ("0", "-1"),
                    ("9007199254740994", "9007199254740993"),
                    ("-1152921504606846976", "-1152921504606846977"),
                    ("9223372036854775807", "9223372036854775806"),
                    ("-9223372036854775807", "-9223372036854775808"),
                ]);
                set(m, "min", raw(min));
                set(m, "init", raw(init));
                "int: init below min".into()
            }
            3 => {
                unset(m, "min");
                let (max, init) = *t.pick(&[
                    ("5", "6"),
                    ("0", "1"),
                    ("9007199254740992", "9007199254740993"),
                    ("1152921504606846976", "1152921504606846977"),
                    ("9223372036854775806", "9223372036854775807"),
                    ("-9223372036854775808", "-9223372036854775807"),
                ]);
                set(m, "max", raw(max));
                set(m, "init", raw(init));
                "int: init above max".into()
            }
            4 => {
                let k = ["init", "scale", "min", "max"][t.below(4) as usize];
                set(m, k, raw(nonfinite));
                format!("int: {} is {}", k, nonfinite)
            }
            5 => {
                let v = ["0", "0.0", "-1.0", "-0.0", "-1e-300"][t.below(5) as usize];
                set(m, "scale", raw(v));
                format!("int: scale {}", v)
            }
            6 => {
                let k = ["init", "min", "max"][t.below(3) as usize];
                set(m, k, [raw("true"), raw("foo"), raw("1.5"), raw("9223372036854775808"), raw("null")][t.below(5) as usize].clone());
                format!("int: {} is not an integer", k)
            }
            7 => {
                set(m, "min", raw("-1"));
                set(m, "max", raw("1"));
                set(m, "init", raw(["2", "-2", "9223372036854775807"][t.below(3) as usize]));
                "int: init outside both bounds".into()
            }
            _ => {
                set(m, "step", raw("1"));
                "int: unknown attribute".into()
            }
        },
        "bool" => {
            set(m, "init", raw(["0", "foo", "null", "[true]"][t.below(4) as usize]));
            "bool: init is not a boolean".into()
        }
        "enum" => match t.below(7) {
            6 => {
                if let Some(Y::Str(s)) = m.iter().find(|(k, _)| k == "init").map(|e| e.1.clone()) {
                    let s = near(t, &s);
                    set(m, "init", Y::Str(s));
                }
                "almost: init of an enum".into()
            }
            0 => {
                set(m, "values", Y::Seq(vec![Y::Str("a".into())]));
                set(m, "init", Y::Str("a".into()));
                "enum: one value".into()
            }
            1 => {
                let n = t.usize(2, 4);
                set(m, "values", Y::Seq(vec![Y::Str("a".into()); n]));
                set(m, "init", Y::Str("a".into()));
                "enum: one distinct value".into()
            }
            2 => {
                set(m, "values", Y::Seq(vec![]));
                "enum: no values".into()
            }
            3 => {
                set(m, "init", Y::Str("not declared".into()));
                "enum: init not among the values".into()
            }
            4 => {
                set(m, "values", Y::Seq(vec![Y::Str("a".into()), raw("5")]));
                set(m, "init", Y::Str("a".into()));
                "enum: a value that is not a string".into()
            }
            _ => {
                set(m, "values", raw("foo"));
                "enum: values is not a sequence".into()
            }
        },
        "array" => {
            if t.chance(1, 2) {
                set(m, "size", raw(t.below(2)));
                "array: size below 2".into()
            } else {
                set(m, "size", raw(["-1", "2.5", "foo", "null", "-3"][t.below(5) as usize]));
                "array: size is not an unsigned integer".into()
            }
        }
        "anon map" => match t.below(6) {
            0 => {
                set(m, "minSize", raw("3"));
                set(m, "maxSize", raw("2"));
                set(m, "initSize", raw("2"));
                "anon map: minSize above maxSize".into()
            }
            1 => {
                set(m, "minSize", raw("3"));
                set(m, "maxSize", raw("3"));
                set(m, "initSize", raw("3"));
                "anon map: minSize equals maxSize".into()
            }
            2 => {
                let (min, init) = *t.pick(&[("3", "2"), ("3", "0"), ("1", "0"), ("18446744073709551615", "7"), ("4294967297", "1")]);
                set(m, "minSize", raw(min));
                unset(m, "maxSize");
                set(m, "initSize", raw(init));
                "anon map: initSize below minSize".into()
            }
            3 => {
                unset(m, "minSize");
                // the sum or the low half of a size may look fine
                let (max, init) = *t.pick(&[("3", "4"), ("3", "6"), ("1", "2"), ("4", "18446744073709551615"), ("8", "4294967297"), ("300", "301")]);
                set(m, "maxSize", raw(max));
                set(m, "initSize", raw(init));
                "anon map: initSize above maxSize".into()
            }
            4 => {
                set(m, "minSize", raw("2"));
                set(m, "maxSize", raw("4"));
                set(m, "initSize", raw([0, 1, 5, 6][t.below(4) as usize]));
                "anon map: initSize outside both bounds".into()
            }
            _ => {
                let k = ["initSize", "minSize", "maxSize"][t.below(3) as usize];
                set(m, k, raw(["-1", "1.5", "foo", "null"][t.below(4) as usize]));
                format!("anon map: {} is not an unsigned integer", k)
            }
        },
        "variant" => {
            let opts: Vec<String> =
                m.iter().map(|(k, _)| k.clone()).filter(|k| k != "type" && k != "init").collect();
            match t.below(5) {
                4 => {
                    let k = t.pick(&opts).clone();
                    let s = near(t, &k);
                    set(m, "init", Y::Str(s));
                    "almost: init of a variant".into()
                }
                0 => {
                    for k in &opts[1..] {
                        unset(m, k);
                    }
                    set(m, "init", Y::Str(opts[0].clone()));
                    "variant: one option".into()
                }
                1 => {
                    for k in &opts {
                        unset(m, k);
                    }
                    "variant: no option".into()
                }
                2 => {
                    set(m, "init", Y::Str("not declared".into()));
                    "variant: init is not an option".into()
                }
                _ => {
                    let i = t.below(2);
                    set(m, "init", Y::Str(["init", "type"][i as usize].into()));
                    "variant: init names an attribute, not an option".into()
                }
            }
        }
        "optional" => {
            set(m, "initPresent", raw(["0", "foo", "null", "1.5"][t.below(4) as usize]));
            "optional: initPresent is not a boolean".into()
        }
        "sub" => match t.below(3) {
            0 => {
                // a definition is visible only inside its own sub
                let mut inner = vec![
                    kv("typeDef OnlyHere", Y::Map(vec![ty("const")], "const")),
                    kv("p", Y::Map(vec![ty("OnlyHere")], "ref")),
                ];
                t.shuffle(&mut inner);
                set(m, "scopeA", Y::Map(inner, "sub"));
                set(m, "scopeB", Y::Map(vec![ty("OnlyHere")], "ref"));
                "reference to a type defined in a sibling".into()
            }
            1 => {
                set(m, "broken", raw(["5", "null", "true", "[]"][t.below(4) as usize]));
                "sub: a parameter that is not a map".into()
            }
            _ => {
                set(m, "typeDef Broken", Y::Map(vec![ty("real"), kv("init", raw("1.0")), kv("scale", raw("0"))], "real"));
                "a type definition with scale 0".into()
            }
        },
        _ => {
            set(m, "type", Y::Str("no_such_type".into()));
            "unknown type name in a reference".into()
        }
    }
}

// ------------------------------------------------------------ attribute soups

const SOUP_KEYS: &[&str] = &[
    "type", "init", "min", "max", "scale", "size", "valueType", "initSize", "minSize", "maxSize", "values",
    "initPresent", "typeDef T", "typeDef ", "typeDef", "typeDefs", "typeDef real", "a", "b", "T", "typeDef U",
    "typeDef T x", "Type",
];
const SOUP_TYPES: &[&str] = &[
    "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const", "T", "U", "foo", "",
];
const SOUP_SCALARS: &[&str] = &[
    "0", "1", "-1", "2", "3", "5", "0.5", "-0.0", "1e308", ".inf", "-.inf", ".nan", "true", "false", "null", "~",
    "a", "b", "T", "''", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e-320",
    "18446744073709551616", "0x10", "0o7", "1_000", "!foo bar", "2024-01-01", "[]", "{}", "[a, b]", "[a, a]",
    "[1, 2]", "[a, {b: c}]", "1.0", "4", "10", "!!str 5", "!!float 5", "!!int '5'", "'5'", "[[]]",
    "100000", "\"\\0\"", "é", "!t {a: b}", "!t [1]",
];

pub fn gen_soup(t: &mut Tape, depth: usize, o: &mut String, doc: &mut usize) {
    *doc += 1;
    if depth == 0 || *doc > 60 {
        let s = t.pick(SOUP_SCALARS).to_string();
        o.push_str(&s);
        return;
    }
    if t.chance(1, 12) {
        // odd keys
        let k = *t.pick(&["1", "true", "null", "[a]", "{a: b}", "!t x", "1.5", "? a", "!a {b: !c d}", "{}", "!x", "!x [!y z]"]);
        let _ = write!(o, "{{{}: ", k);
        gen_soup(t, depth - 1, o, doc);
        o.push('}');
        return;
    }
    let n = t.usize(0, 5);
    let mut keys: Vec<String> = Vec::new();
    o.push('{');
    if t.chance(4, 5) {
        let k = *t.pick(SOUP_TYPES);
        let _ = write!(o, "type: {}", yq(k));
        keys.push("type".into());
        // attributes of that kind, with arbitrary values
        let own: &[&str] = match k {
            "real" | "int" => &["init", "scale", "min", "max"],
            "bool" => &["init"],
            "array" => &["size", "valueType"],
            "anon map" => &["initSize", "minSize", "maxSize", "valueType"],
            "variant" => &["init", "a", "b"],
            "enum" => &["init", "values"],
            "optional" => &["initPresent", "valueType"],
            "sub" => &["a", "typeDef T", "b"],
            _ => &[],
        };
        for a in own {
            if t.chance(9, 10) {
                let _ = write!(o, ", {}: ", yq(a));
                keys.push(a.to_string());
                soup_value(t, k, a, depth, o, doc);
            }
        }
    }
    for _ in 0..n {
        if !t.chance(1, 4) {
            continue;
        }
        let k = t.pick(SOUP_KEYS).to_string();
        if keys.contains(&k) && t.chance(19, 20) {
            continue;
        }
        if !o.ends_with('{') {
            o.push_str(", ");
        }
        let _ = write!(o, "{}: ", yq(&k));
        keys.push(k);
        gen_soup(t, depth - 1, o, doc);
    }
    o.push('}');
}

fn soup_value(t: &mut Tape, k: &str, a: &str, depth: usize, o: &mut String, doc: &mut usize) {
    if t.chance(1, 8) {
        gen_soup(t, depth - 1, o, doc);
        return;
    }
    match (k, a) {
        ("real" | "int", _) => {
            let s = *t.pick(&["0", "1", "2", "-1", "5", "0.5", "-0.0", ".inf", "-.inf", ".nan", "1e308", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "3"]);
            o.push_str(s);
        }
        ("enum", "values") => {
            let s = *t.pick(&["[a, b]", "[a, a]", "[a]", "[]", "[a, b, a]", "[a, 1]", "a", "[b, a, c]"]);
            o.push_str(s);
        }
        ("bool", _) | (_, "initPresent") => {
            let s = *t.pick(&["true", "false", "1", "yes", "null", "'true'"]);
            o.push_str(s);
        }
        (_, "init") => {
            let s = *t.pick(&["a", "b", "c", "init", "type", "1", "'1'"]);
            o.push_str(s);
        }
        (_, "size" | "initSize" | "minSize" | "maxSize") => {
            let s = *t.pick(&["0", "1", "2", "3", "4", "5", "-1", "1.0", "2.5", "7"]);
            o.push_str(s);
        }
        _ => gen_soup(t, depth - 1, o, doc),
    }
}

// ------------------------------------------------------------ reference reader

/// What the rules say about a document.
#[derive(Debug)]
pub enum Ref {
    /// The parameter space written.
    Space(Node),
    /// Breaks a listed rule.
    Broken(String),
    /// Nothing is claimed (e.g. a mandatory attribute is missing, an empty sub).
    Open,
}

struct Rd {
    broken: Option<String>,
    open: bool,
}

impl Rd {
    fn bad(&mut self, s: impl Into<String>) {
        if self.broken.is_none() {
            self.broken = Some(s.into());
        }
    }
}

/// Is a key tagged somewhere? A reader may or may not look through the tag.
fn tagged_key(v: &serde_yaml::Value) -> bool {
    use serde_yaml::Value as V;
    match v {
        V::Mapping(m) => m.iter().any(|(k, e)| matches!(k, V::Tagged(_)) || tagged_key(k) || tagged_key(e)),
        V::Sequence(s) => s.iter().any(tagged_key),
        V::Tagged(t) => tagged_key(&t.value),
        _ => false,
    }
}

pub fn reference(v: &serde_yaml::Value) -> Ref {
    if tagged_key(v) {
        return Ref::Open;
    }
    let mut r = Rd { broken: None, open: false };
    let n = rd(&mut r, v, &Vec::new());
    if let Some(b) = r.broken {
        return Ref::Broken(b);
    }
    if r.open {
        return Ref::Open;
    }
    match n {
        Some(n) => Ref::Space(n),
        None => Ref::Open,
    }
}

fn attrs(r: &mut Rd, m: &serde_yaml::Mapping, allowed: &[&str]) {
    for k in m.keys() {
        match k {
            serde_yaml::Value::String(s) => {
                if !allowed.contains(&s.as_str()) {
                    r.bad(format!("unknown attribute {:?}", s));
                }
            }
            serde_yaml::Value::Tagged(_) => r.open = true,
            _ => r.bad("attribute key that is not a string"),
        }
    }
}

fn plain(v: &serde_yaml::Value) -> bool {
    !matches!(v, serde_yaml::Value::Tagged(_))
}

fn real(r: &mut Rd, m: &serde_yaml::Mapping, k: &str) -> Option<f64> {
    match m.get(k) {
        None => None,
        Some(serde_yaml::Value::Number(n)) => match n.as_f64() {
            Some(x) if x.is_finite() => Some(x),
            _ => {
                r.bad(format!("{} is not finite", k));
                None
            }
        },
        Some(v) if plain(v) => {
            r.bad(format!("{} is not a number", k));
            None
        }
        Some(_) => {
            r.open = true;
            None
        }
    }
}

fn need<T>(r: &mut Rd, v: Option<T>) -> Option<T> {
    if v.is_none() {
        r.open = true;
    }
    v
}

fn rd(r: &mut Rd, v: &serde_yaml::Value, env: &Vec<(String, Option<Node>)>) -> Option<Node> {
    use serde_yaml::Value as V;
    let m = match v {
        V::Mapping(m) => m,
        V::Tagged(_) => {
            r.open = true;
            return None;
        }
        _ => {
            r.bad("a declaration that is not a map");
            return None;
        }
    };
    let tn = match m.get("type") {
        None => "sub",
        Some(V::String(s)) => s.as_str(),
        Some(V::Tagged(_)) => {
            r.open = true;
            return None;
        }
        Some(_) => {
            r.bad("type name is not a string");
            return None;
        }
    };
    match tn {
        "real" => {
            attrs(r, m, &["type", "init", "scale", "min", "max"]);
            let (min, max) = (real(r, m, "min"), real(r, m, "max"));
            let init = real(r, m, "init");
            let init = need(r, init);
            let scale = real(r, m, "scale");
            let scale = need(r, scale);
            if let (Some(a), Some(b)) = (min, max) {
                if !(a < b) {
                    r.bad("min not below max");
                }
            }
            let (init, scale) = (init?, scale?);
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                r.bad("init out of bounds");
            }
            if !(scale > 0.0) {
                r.bad("scale not positive");
            }
            Some(Node::Real { init, scale, min, max })
        }
        "int" => {
            attrs(r, m, &["type", "init", "scale", "min", "max"]);
            let int = |r: &mut Rd, k: &str| -> Option<i64> {
                match m.get(k) {
                    None => None,
                    Some(V::Number(n)) => match n.as_i64() {
                        Some(x) => Some(x),
                        None => {
                            r.bad(format!("{} is not an integer", k));
                            None
                        }
                    },
                    Some(V::Tagged(_)) => {
                        r.open = true;
                        None
                    }
                    Some(_) => {
                        r.bad(format!("{} is not an integer", k));
                        None
                    }
                }
            };
            let (min, max) = (int(r, "min"), int(r, "max"));
            let init = int(r, "init");
            let init = need(r, init);
            let scale = real(r, m, "scale");
            let scale = need(r, scale);
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    r.bad("min not below max");
                }
            }
            let (init, scale) = (init?, scale?);
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                r.bad("init out of bounds");
            }
            if !(scale > 0.0) {
                r.bad("scale not positive");
            }
            Some(Node::Int { init, scale, min, max })
        }
        "bool" => {
            attrs(r, m, &["type", "init"]);
            match m.get("init") {
                Some(V::Bool(b)) => Some(Node::Bool { init: *b }),
                None | Some(V::Tagged(_)) => need(r, None),
                Some(_) => {
                    r.bad("init is not a boolean");
                    None
                }
            }
        }
        "const" => {
            attrs(r, m, &["type"]);
            Some(Node::Const)
        }
        "enum" => {
            attrs(r, m, &["type", "init", "values"]);
            let vals = match m.get("values") {
                Some(V::Sequence(s)) => {
                    let mut out = Vec::new();
                    for v in s {
                        match v {
                            V::String(x) => out.push(x.clone()),
                            V::Tagged(_) => r.open = true,
                            _ => r.bad("enum value that is not a string"),
                        }
                    }
                    let mut d = out.clone();
                    d.sort();
                    d.dedup();
                    if d.len() < 2 && !r.open {
                        r.bad("fewer than two distinct enum values");
                    }
                    Some(out)
                }
                _ => None,
            };
            let init = match m.get("init") {
                Some(V::String(s)) => Some(s.clone()),
                _ => None,
            };
            let vals = need(r, vals);
            let init = need(r, init);
            let (values, init) = (vals?, init?);
            if !values.contains(&init) {
                r.bad("enum init not declared");
            }
            Some(Node::Enum { values, init })
        }
        "array" => {
            attrs(r, m, &["type", "size", "valueType"]);
            let vt = m.get("valueType").map(|v| rd(r, v, env));
            let size = usz(r, m, "size");
            let (vt, size) = (need(r, vt), need(r, size));
            let (vt, size) = (vt??, size?);
            if size < 2 {
                r.bad("array size below 2");
            }
            Some(Node::Array { value_type: Box::new(vt), size })
        }
        "optional" => {
            attrs(r, m, &["type", "initPresent", "valueType"]);
            let vt = m.get("valueType").map(|v| rd(r, v, env));
            let ip = match m.get("initPresent") {
                Some(V::Bool(b)) => Some(*b),
                _ => None,
            };
            let (vt, ip) = (need(r, vt), need(r, ip));
            Some(Node::Optional { value_type: Box::new(vt??), init_present: ip? })
        }
        "anon map" => {
            attrs(r, m, &["type", "initSize", "minSize", "maxSize", "valueType"]);
            let vt = m.get("valueType").map(|v| rd(r, v, env));
            let (init, min, max) = (usz(r, m, "initSize"), usz(r, m, "minSize"), usz(r, m, "maxSize"));
            let (vt, init) = (need(r, vt), need(r, init));
            if let (Some(a), Some(b)) = (min, max) {
                if a > b {
                    r.bad("minSize above maxSize");
                }
                if a == b {
                    r.open = true;
                }
            }
            if max == Some(0) {
                r.open = true;
            }
            let (vt, init) = (vt??, init?);
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                r.bad("initSize out of bounds");
            }
            Some(Node::AnonMap { value_type: Box::new(vt), init_size: init, min_size: min, max_size: max })
        }
        "variant" => {
            let mut map = FxHashMap::default();
            let mut all = true;
            for (k, v) in m {
                match k {
                    V::String(s) if s == "type" || s == "init" => {}
                    V::String(s) => {
                        if s.starts_with("typeDef ") {
                            r.open = true;
                        }
                        match rd(r, v, env) {
                            Some(n) => {
                                map.insert(s.clone(), Box::new(n));
                            }
                            None => all = false,
                        }
                    }
                    V::Tagged(_) => {
                        r.open = true;
                        all = false;
                    }
                    _ => r.bad("option name that is not a string"),
                }
            }
            let init = match m.get("init") {
                Some(V::String(s)) => Some(s.clone()),
                _ => None,
            };
            let init = need(r, init);
            if !all {
                return None;
            }
            if map.len() < 2 {
                r.bad("fewer than two options");
            }
            let init = init?;
            if !map.contains_key(&init) {
                r.bad("variant init not declared");
            }
            Some(Node::Variant { map, init })
        }
        "sub" => {
            let mut inner = env.clone();
            let own: Vec<String> = m
                .keys()
                .filter_map(|k| k.as_str())
                .filter_map(|s| s.strip_prefix("typeDef "))
                .map(|s| s.to_string())
                .collect();
            for (k, v) in m {
                match k {
                    V::String(s) => {
                        if let Some(name) = s.strip_prefix("typeDef ") {
                            if BUILTIN.contains(&name) {
                                r.open = true;
                            }
                            let n = rd_def(r, v, &inner, &own);
                            inner.push((name.to_string(), n));
                        }
                    }
                    V::Tagged(_) => r.open = true,
                    _ => r.bad("key that is not a string"),
                }
            }
            let mut map = FxHashMap::default();
            let mut all = true;
            for (k, v) in m {
                if let V::String(s) = k {
                    if s == "type" || s.starts_with("typeDef ") {
                        continue;
                    }
                    match rd(r, v, &inner) {
                        Some(n) => {
                            map.insert(s.clone(), Box::new(n));
                        }
                        None => all = false,
                    }
                }
            }
            if map.is_empty() {
                r.open = true;
            }
            if all {
                Some(Node::Sub { map })
            } else {
                None
            }
        }
        name => {
            attrs(r, m, &["type"]);
            match env.iter().rev().find(|(n, _)| n == name) {
                Some((_, n)) => n.clone(),
                None => {
                    r.bad(format!("unknown type name {:?}", name));
                    None
                }
            }
        }
    }
}

/// A definition body. References to names the same sub defines elsewhere are not judged when
/// they would be forward or self references.
fn rd_def(r: &mut Rd, v: &serde_yaml::Value, env: &Vec<(String, Option<Node>)>, own: &[String]) -> Option<Node> {
    if mentions(v, own) {
        r.open = true;
    }
    rd(r, v, env)
}

fn mentions(v: &serde_yaml::Value, names: &[String]) -> bool {
    use serde_yaml::Value as V;
    match v {
        V::Mapping(m) => m.iter().any(|(k, v)| {
            k.as_str() == Some("type") && v.as_str().map_or(false, |s| names.iter().any(|n| n == s)) || mentions(v, names)
        }),
        V::Sequence(s) => s.iter().any(|v| mentions(v, names)),
        V::Tagged(t) => mentions(&t.value, names),
        _ => false,
    }
}

fn usz(r: &mut Rd, m: &serde_yaml::Mapping, k: &str) -> Option<usize> {
    use serde_yaml::Value as V;
    match m.get(k) {
        None => None,
        Some(V::Number(n)) => match n.as_u64() {
            Some(x) => Some(x as usize),
            None => {
                r.bad(format!("{} is not an unsigned integer", k));
                None
            }
        },
        Some(V::Tagged(_)) => {
            r.open = true;
            None
        }
        Some(_) => {
            r.bad(format!("{} is not an unsigned integer", k));
            None
        }
    }
}

// ------------------------------------------------------------ well-formedness

pub fn well_formed(n: &Node) -> Result<(), String> {
    match n {
        Node::Real { init, scale, min, max } => {
            for x in [Some(*init), Some(*scale), *min, *max].into_iter().flatten() {
                if !x.is_finite() {
                    return Err(format!("non-finite number {} in a real", x));
                }
            }
            if !(*scale > 0.0) {
                return Err(format!("scale {}", scale));
            }
            if let (Some(a), Some(b)) = (min, max) {
                if !(a < b) {
                    return Err(format!("min {} max {}", a, b));
                }
            }
            if min.map_or(false, |a| *init < a) || max.map_or(false, |b| *init > b) {
                return Err(format!("init {} outside [{:?}, {:?}]", init, min, max));
            }
            Ok(())
        }
        Node::Int { init, scale, min, max } => {
            if !scale.is_finite() || !(*scale > 0.0) {
                return Err(format!("scale {}", scale));
            }
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return Err(format!("min {} max {}", a, b));
                }
            }
            if min.map_or(false, |a| *init < a) || max.map_or(false, |b| *init > b) {
                return Err(format!("init {} outside [{:?}, {:?}]", init, min, max));
            }
            Ok(())
        }
        Node::Bool { .. } | Node::Const => Ok(()),
        Node::Sub { map } => map.values().try_for_each(|c| well_formed(c)),
        Node::Array { value_type, size } => {
            if *size < 2 {
                return Err(format!("array size {}", size));
            }
            well_formed(value_type)
        }
        Node::AnonMap { value_type, init_size, min_size, max_size } => {
            if let (Some(a), Some(b)) = (min_size, max_size) {
                if a > b {
                    return Err(format!("minSize {} maxSize {}", a, b));
                }
            }
            if *init_size < min_size.unwrap_or(0) || *init_size > max_size.unwrap_or(usize::MAX) {
                return Err(format!("initSize {} outside [{:?}, {:?}]", init_size, min_size, max_size));
            }
            well_formed(value_type)
        }
        Node::Variant { map, init } => {
            if map.len() < 2 {
                return Err("fewer than two options".into());
            }
            if !map.contains_key(init) {
                return Err(format!("initial option {:?} not declared", init));
            }
            map.values().try_for_each(|c| well_formed(c))
        }
        Node::Enum { values, init } => {
            let mut d: Vec<&String> = values.iter().collect();
            d.sort();
            d.dedup();
            if d.len() < 2 {
                return Err("fewer than two distinct enum values".into());
            }
            if !values.contains(init) {
                return Err(format!("initial value {:?} not declared", init));
            }
            Ok(())
        }
        Node::Optional { value_type, .. } => well_formed(value_type),
    }
}
