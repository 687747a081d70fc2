use crate::docgen::*;
use crate::engine::{catch, Check, Ctx, Family};
use crate::model::*;
use crate::tape::Tape;
use cambrian::spec::Spec;
use cambrian::spec_util::from_yaml_str;
use serde_json::json;
use std::collections::BTreeSet;

fn parse(text: &str) -> Result<Result<Spec, String>, String> {
    catch(|| from_yaml_str(text).map_err(|e| e.to_string()))
}

/// How many nodes the initial value has.
fn init_nodes(n: &cambrian::spec::Node) -> f64 {
    use cambrian::spec::Node;
    match n {
        Node::Sub { map } => 1.0 + map.values().map(|c| init_nodes(c)).sum::<f64>(),
        Node::Array { value_type, size } => 1.0 + *size as f64 * init_nodes(value_type).max(1.0),
        Node::AnonMap { value_type, init_size, .. } => 1.0 + *init_size as f64 * init_nodes(value_type).max(1.0),
        Node::Variant { map, init } => 1.0 + map.get(init).map_or(0.0, |c| init_nodes(c)),
        Node::Optional { value_type, .. } => 1.0 + init_nodes(value_type),
        _ => 1.0,
    }
}

/// The accepted space's initial value exists, is the declared one and conforms.
fn init_ok(spec: &Spec) -> Result<(), String> {
    if init_nodes(&spec.0) > 300_000.0 {
        return Ok(()); // needs gigabytes; outside the explored domain
    }
    let v = catch(|| spec.initial_value())?;
    conforms_value(&spec.0, &v.0, "").map_err(|m| format!("initial value does not conform {}", m))?;
    if v.0 != init_value(&spec.0) {
        return Err(format!("initial value {:?} is not the declared one", v.0));
    }
    Ok(())
}

fn doc_of(t: &mut Tape, st: &mut DocStats) -> (Y, cambrian::spec::Node) {
    let cfg = GenCfg { max_depth: t.usize(1, 6), size: t.usize(2, 40), ..GenCfg::default() };
    let (y, n) = gen_doc(t, &cfg, st);
    if t.chance(1, 8) {
        st.nodes += 3;
        return wrap(t, y, n);
    }
    (y, n)
}

fn wellformed(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut st = DocStats { defs: 0, refs: 0, shadowing: 0, nodes: 0 };
    let (y, want) = doc_of(t, &mut st);
    let text = print_any(t, &y);
    let mut kinds = BTreeSet::new();
    kinds_in(&want, &mut kinds);
    for k in kinds {
        ctx.label(format!("kind {}", k));
    }
    if st.refs > 0 {
        ctx.label("uses a type definition");
    }
    if st.shadowing > 0 {
        ctx.label("shadows a type definition");
    }
    if st.nodes >= 4 {
        ctx.nontrivial(&text);
    }
    ctx.sample(|| json!(text));
    well_formed(&want).map_err(|m| format!("HARNESS: generated an ill-formed space: {}", m))?;
    match parse(&text)? {
        Err(e) => Err(format!("well-formed document rejected ({}):\n{}", e, text)),
        Ok(got) => {
            if got.0 != want {
                return Err(format!(
                    "the accepted space is not the one written.\ndocument: {}\nwritten:  {}\naccepted: {}",
                    text,
                    to_yaml(&want),
                    to_yaml(&got.0)
                ));
            }
            init_ok(&got).map_err(|m| format!("{}\ndocument: {}", m, text))
        }
    }
}

fn broken(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut st = DocStats { defs: 0, refs: 0, shadowing: 0, nodes: 0 };
    let (mut y, _) = doc_of(t, &mut st);
    let what = break_one(t, &mut y);
    let text = print_any(t, &y);
    ctx.label(format!("rule: {}", what.split(':').next().unwrap_or("")));
    ctx.label(format!("broken: {}", what));
    ctx.nontrivial(&text);
    ctx.sample(|| json!({"rule": what, "document": text}));
    if what.starts_with("almost") {
        // what is almost a name may happen to be another one
        return judge_any(&text, ctx);
    }
    match parse(&text)? {
        Err(_) => Ok(()),
        Ok(s) => Err(format!(
            "a document that breaks a rule ({}) is accepted.\ndocument: {}\naccepted: {}",
            what,
            text,
            to_yaml(&s.0)
        )),
    }
}

fn judge_any(text: &str, ctx: &mut Ctx) -> Result<(), String> {
    let got = parse(text).map_err(|m| format!("{}\ndocument: {}", m, text))?;
    let refv = match serde_yaml::from_str::<serde_yaml::Value>(text) {
        Ok(v) => Some(reference(&v)),
        Err(_) => None,
    };
    match (&got, &refv) {
        (Ok(_), None) => return Err(format!("text that is not YAML is accepted: {}", text)),
        (Ok(s), Some(r)) => {
            ctx.label("accepted");
            well_formed(&s.0).map_err(|m| format!("accepted but not well-formed ({}): {}", m, text))?;
            init_ok(s).map_err(|m| format!("{}\ndocument: {}", m, text))?;
            match r {
                Ref::Broken(b) => return Err(format!("accepted although it breaks a rule ({}): {}", b, text)),
                Ref::Space(n) => {
                    ctx.label("accepted, compared with the reference reader");
                    if s.0 != *n {
                        return Err(format!(
                            "the accepted space is not the one written.\ndocument: {}\nwritten:  {}\naccepted: {}",
                            text,
                            to_yaml(n),
                            to_yaml(&s.0)
                        ));
                    }
                }
                Ref::Open => ctx.label("accepted, reference leaves it open"),
            }
        }
        (Err(_), None) => ctx.label("not YAML"),
        (Err(e), Some(Ref::Broken(_))) => {
            ctx.label("rejected, breaks a rule");
            let _ = e;
        }
        (Err(_), Some(Ref::Space(_))) => {
            return Err(format!("well-formed document rejected ({}): {}", got.as_ref().err().unwrap(), text));
        }
        (Err(_), Some(Ref::Open)) => ctx.label("rejected, reference leaves it open"),
    }
    Ok(())
}

fn soup(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut text = String::new();
    let mut n = 0;
    let depth = t.usize(1, 5);
    gen_soup(t, depth, &mut text, &mut n);
    if n >= 3 {
        ctx.nontrivial(&text);
    }
    ctx.sample(|| json!(text));
    judge_any(&text, ctx)
}

/// Character-level damage to a well-formed document.
fn mangled(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut st = DocStats { defs: 0, refs: 0, shadowing: 0, nodes: 0 };
    let (y, _) = doc_of(t, &mut st);
    let text = print_any(t, &y);
    let mut chars: Vec<char> = text.chars().collect();
    let k = t.usize(1, 4);
    for _ in 0..k {
        if chars.is_empty() {
            break;
        }
        let i = t.below(chars.len() as u64) as usize;
        match t.below(5) {
            0 => {
                chars.remove(i);
            }
            1 => {
                let c = *t.pick(&['{', '}', '[', ']', ':', ',', '\n', ' ', '-', '0', '9', '.', '"', '\'', '&', '*', '!', '?', '#', '|', 'e', '\t', '\u{0}', '\u{feff}', '%', '@', '<']);
                chars.insert(i, c);
            }
            2 => {
                let j = (i + 1 + t.below(30) as usize).min(chars.len());
                chars.drain(i..j);
            }
            3 => {
                let j = (i + 1 + t.below(30) as usize).min(chars.len());
                let part: Vec<char> = chars[i..j].to_vec();
                let at = t.below(chars.len() as u64 + 1) as usize;
                for (o, c) in part.into_iter().enumerate() {
                    chars.insert(at + o, c);
                }
            }
            _ => chars.truncate(i),
        }
    }
    let text: String = chars.into_iter().collect();
    ctx.nontrivial(&text);
    ctx.sample(|| json!(text));
    judge_any(&text, ctx)
}

const TOKENS: &[&str] = &[
    "{", "}", "[", "]", ": ", ", ", "\n", " ", "  ", "- ", "? ", "&a ", "*a", "!t ", "!!str ", "!!map ", "|", ">", "\"", "'", "#",
    "---\n", "...\n", "<<: ", "type", "real", "int", "init", "scale", "1", "0.5", ".nan", ".inf", "valueType", "typeDef T", "T",
    "anon map", "initSize", "values", "a", "b", "null", "~", "%YAML 1.1\n", "\u{feff}", "\\", "é", "@", "`", "type: real", "init: 1",
    "scale: 1", "type: bool", "init: true", "{type: const}", "{type: bool, init: true}", "a: ", "b: ",
];

/// Token salad.
fn tokens(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let n = t.usize(0, 40);
    let mut text = String::new();
    for _ in 0..n {
        text.push_str(*t.pick(TOKENS));
    }
    if n > 2 {
        ctx.nontrivial(&text);
    }
    ctx.sample(|| json!(text));
    judge_any(&text, ctx)
}

/// Deep nesting and long chains of definitions, within what a document of a few hundred kB can say.
fn deep(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut text = String::new();
    let desc;
    match t.below(3) {
        0 => {
            let d = t.usize(1, 400);
            let open = *t.pick(&["{a: ", "{type: optional, initPresent: true, valueType: ", "{type: array, size: 2, valueType: ", "{type: anon map, initSize: 1, valueType: ", "["]);
            let d = if open.contains("array") { d.min(14) } else { d };
            for _ in 0..d {
                text.push_str(open);
            }
            text.push_str("{type: const}");
            for _ in 0..d {
                text.push_str(if open == "[" { "]" } else { "}" });
            }
            desc = format!("{} levels of {}", d, open);
        }
        1 => {
            let n = t.usize(1, 60);
            let per = t.usize(1, 8);
            text.push_str("typeDef T0: {type: const}\n");
            for i in 1..=n {
                text.push_str(&format!("typeDef T{}: ", i));
                for _ in 0..per {
                    text.push_str("{x: ");
                }
                text.push_str(&format!("{{type: T{}}}", i - 1));
                for _ in 0..per {
                    text.push('}');
                }
                text.push('\n');
            }
            text.push_str(&format!("p: {{type: T{}}}\n", n));
            desc = format!("chain of {} definitions, {} levels each", n, per);
        }
        _ => {
            let n = t.usize(1, 10);
            text.push_str("typeDef T0: {type: bool, init: true}\n");
            for i in 1..=n {
                text.push_str(&format!("typeDef T{}: {{a: {{type: T{}}}, b: {{type: T{}}}}}\n", i, i - 1, i - 1));
            }
            text.push_str(&format!("p: {{type: T{}}}\n", n));
            desc = format!("doubling chain of {} definitions", n);
        }
    }
    ctx.nontrivial(&text);
    ctx.sample(|| json!(desc));
    judge_any(&text, ctx).map_err(|m| if m.len() > 2000 { m.chars().take(2000).collect() } else { m })
}

/// `vh parse FILE`: what the parse families run in a process of their own.
pub fn parse_main(path: &str) -> i32 {
    let text = match std::fs::read(path) {
        Ok(b) => String::from_utf8_lossy(&b).into_owned(),
        Err(_) => return 2,
    };
    // the stack of a thread that asks for nothing particular
    let thread = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match from_yaml_str(&text) {
        Ok(s) => {
            drop(s.initial_value());
            println!("accepted");
        }
        Err(_) => println!("rejected"),
    });
    match thread.map(|t| t.join()) {
        Ok(Ok(())) => 0,
        Ok(Err(_)) => 101,
        Err(_) => 2,
    }
}

/// Documents that multiply nesting through definitions, parsed in a process of their own, because
/// running out of stack cannot be observed from inside.
fn bottomless(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let open = *t.pick(&["{x: ", "{type: optional, initPresent: true, valueType: ", "{type: anon map, initSize: 1, valueType: "]);
    // a sub copies all definitions in scope, which takes long without a limit to the depth
    let (n, per) = if open == "{x: " { (t.usize(1, 40), t.usize(1, 40)) } else { (t.usize(1, 250), t.usize(1, 110)) };
    let mut text = String::from("typeDef T0: {type: const}\n");
    for i in 1..=n {
        text.push_str(&format!("typeDef T{}: {}{{type: T{}}}{}\n", i, open.repeat(per), i - 1, "}".repeat(per)));
    }
    text.push_str(&format!("p: {{type: T{}}}\n", n));
    ctx.label(if n * per > 4000 { "over 4000 levels" } else { "up to 4000 levels" });
    ctx.nontrivial(&text);
    ctx.sample(|| json!(format!("{} definitions of {} levels of {}", n, per, open)));
    let dir = crate::cli::Scratch::new("c10")?;
    let file = dir.path.join("spec.yaml");
    std::fs::write(&file, &text).map_err(|e| format!("HARNESS: {}", e))?;
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {}", e))?;
    let out = std::process::Command::new(exe)
        .arg("parse")
        .arg(&file)
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("HARNESS: {}", e))?;
    if out.status.code() != Some(0) {
        return Err(format!(
            "parsing crashes ({}) on {} chained definitions of {} levels each; stderr: {}",
            out.status,
            n,
            per,
            String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()
        ));
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        families: vec![
            Family::new("wellformed", 360000, 6000000, wellformed, "a generated well-formed document (10 kinds, nested and shadowed type definitions, keyword-like names, block and flow style) with the space it denotes; oracle: accepted, equal to that space, initial value as declared; non-trivial: at least 4 declarations"),
            Family::new("broken", 360000, 6000000, broken, "a well-formed document with exactly one rule broken at a random place; oracle: rejected with an error; all are non-trivial"),
            Family::new("soup", 400000, 8000000, soup, "a random soup of attributes, types and values; oracle: no panic, agreement with an independent reference reader, accepted implies well-formed; non-trivial: at least 3 nodes"),
            Family::new("mangled", 200000, 4000000, mangled, "a well-formed document with 1-4 character-level edits; same oracle as soup; all are non-trivial"),
            Family::new("tokens", 300000, 6000000, tokens, "a salad of YAML tokens; same oracle as soup; non-trivial: more than 2 tokens"),
            Family::new("deep", 4000, 40000, deep, "deep nesting and long chains of type definitions; same oracle; all are non-trivial").shrink(200),
            Family::new("bottomless", 48, 600, bottomless, "chains of up to 250 type definitions of up to 110 levels each, parsed in a process of their own; oracle: the process does not crash; all are non-trivial").shrink(40),
        ],
        assumptions: vec![
            "documents whose expansion needs gigabytes of memory (doubling chains of dozens of type definitions, map sizes in the billions) are outside the explored domain",
            "not judged either way: definitions that refer to themselves or to later ones, YAML tags, equal size bounds, missing mandatory attributes, empty subs",
        ],
    }
}
