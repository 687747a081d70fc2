//! Families that run the real binary with the scripted objective program.
use super::c11::{broken_guess, same_json};
use crate::cli::*;
use crate::engine::{Ctx, HARNESS};
use crate::model::*;
use crate::tape::Tape;
use cambrian::spec::Node;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;

// ------------------------------------------------------------ command lines

pub struct Plan {
    pub spec: Node,
    pub nc: usize,
    pub sample: usize,
    pub budget: Option<usize>,
    pub target: Option<f64>,
    pub kill_after: Option<String>,
    pub terminate_after: Option<String>,
    pub out: Option<String>,
    pub force: bool,
    pub verbose: bool,
    pub guess: Option<String>,
    pub user_args: Vec<OsString>,
}

pub fn small_spec(t: &mut Tape) -> Node {
    let size = t.usize(1, 8);
    gen_spec(t, &GenCfg { max_depth: 2, size, extremes: false, dup_enum: false, ..GenCfg::default() })
}

impl Plan {
    pub fn new(spec: Node) -> Plan {
        Plan {
            spec,
            nc: 1,
            sample: 1,
            budget: None,
            target: None,
            kill_after: None,
            terminate_after: None,
            out: None,
            force: false,
            verbose: false,
            guess: None,
            user_args: Vec::new(),
        }
    }

    /// Writes the spec file and the command line, in one of the forms the parser offers.
    pub fn apply(&self, t: &mut Tape, job: &mut Job) -> Result<(), String> {
        let name = *t.pick(&["spec.yaml", "s", "a b.yml", "spéc"]);
        let path = job.put(name, to_yaml(&self.spec).as_bytes())?;
        let path = if t.chance(1, 2) { OsString::from(name) } else { path.into_os_string() };
        self.apply_with(t, job, path, objfn().into_os_string())
    }

    pub fn apply_with(&self, t: &mut Tape, job: &mut Job, spec_path: OsString, program: OsString) -> Result<(), String> {
        let mut opts: Vec<Vec<OsString>> = Vec::new();
        let mut opt = |t: &mut Tape, long: &str, short: Option<&str>, v: OsString| {
            let joined = |p: &str| {
                let mut o = OsString::from(p);
                o.push(&v);
                o
            };
            let neg = v.as_bytes().first() == Some(&b'-');
            opts.push(match t.below(4) {
                0 if !neg => vec![format!("--{}", long).into(), v.clone()],
                1 if short.is_some() && !neg => vec![format!("-{}", short.unwrap()).into(), v.clone()],
                2 if short.is_some() && !v.is_empty() && !neg => vec![joined(&format!("-{}", short.unwrap()))],
                _ => vec![joined(&format!("--{}=", long))],
            })
        };
        opt(t, "spec-file", Some("s"), spec_path);
        if let Some(n) = self.budget {
            opt(t, "max-obj-func-eval", Some("n"), n.to_string().into());
        }
        if let Some(x) = self.target {
            opt(t, "target-obj-func-val", Some("t"), format!("{:?}", x).into());
        }
        if self.nc != 1 || t.chance(1, 3) {
            opt(t, "num-concurrent", None, self.nc.to_string().into());
        }
        if self.sample != 1 || t.chance(1, 4) {
            opt(t, "sample-size", None, self.sample.to_string().into());
        }
        if let Some(k) = &self.kill_after {
            opt(t, "kill-obj-func-after", Some("k"), k.into());
        }
        if let Some(k) = &self.terminate_after {
            opt(t, "terminate-after", None, k.into());
        }
        if let Some(o) = &self.out {
            opt(t, "out-dir", Some("o"), o.into());
        }
        if let Some(g) = &self.guess {
            opt(t, "initial-guess", None, g.into());
        }
        if self.force {
            opts.push(vec![t.pick(&["-f", "--force"]).into()]);
        }
        if self.verbose {
            opts.push(vec![t.pick(&["-v", "--verbose"]).into()]);
        }
        t.shuffle(&mut opts);
        let dashed = self.user_args.iter().any(|a| a.as_bytes().first() == Some(&b'-'));
        let mut positional: Vec<Vec<OsString>> = vec![vec![program]];
        positional.extend(self.user_args.iter().map(|a| vec![a.clone()]));
        if dashed || t.chance(1, 3) {
            job.args = opts.into_iter().flatten().collect();
            job.args.push("--".into());
            job.args.extend(positional.into_iter().flatten());
        } else {
            // options before, between and after the program and its arguments
            let mut p = positional.into_iter();
            let mut out: Vec<Vec<OsString>> = Vec::new();
            let mut left = p.len();
            for o in opts {
                while left > 0 && t.chance(1, 3) {
                    out.push(p.next().unwrap());
                    left -= 1;
                }
                out.push(o);
            }
            out.extend(p);
            job.args = out.into_iter().flatten().collect();
        }
        Ok(())
    }
}

fn user_arg(t: &mut Tape) -> OsString {
    match t.below(9) {
        0 => "x".into(),
        1 => OsString::new(),
        2 => "--".into(),
        3 => "-n".into(),
        4 => "a b\n\"c\" $HOME `x` *".into(),
        5 => OsString::from_vec((0..t.usize(1, 6)).map(|_| t.range(1, 255) as u8).collect()),
        6 => "{\"objFuncVal\": 3}".into(),
        7 => "é日本".into(),
        _ => t.below(100).to_string().into(),
    }
}

// ------------------------------------------------------------ outputs of children

/// What a child prints and how it ends, and what that stands for.
#[derive(Clone, Debug)]
pub struct Behaviour {
    pub acts: Vec<J>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// Exit code or -signal.
    pub end: i32,
}

impl Behaviour {
    /// Some(Some(v)) accepted, Some(None) rejected, None failed.
    pub fn verdict(&self) -> Option<Option<f64>> {
        if self.end != 0 {
            None
        } else {
            child_verdict(&self.stdout)
        }
    }
}

fn number_text(t: &mut Tape, v: f64) -> String {
    match t.below(7) {
        0 => format!("{}", v),
        1 => format!("{:?}", v),
        2 => format!("{:e}", v),
        3 => format!("{:E}", v),
        4 => format!("{:.6}", v),
        5 => format!("{:.3}e+0", v),
        _ => format!("{:.4}E00", v),
    }
}

fn space(t: &mut Tape) -> &'static str {
    *t.pick(&["", "", " ", "\n", "\t \r\n", "   "])
}

fn value_in(t: &mut Tape) -> f64 {
    match t.below(6) {
        0 => t.range(-8, 8) as f64,
        1 => t.range(-64, 64) as f64 / 8.0,
        2 => 0.0,
        3 => -0.0,
        4 => *t.pick(&[1e300, -1e300, 1e15, -4294967296.0, 9007199254740992.0]),
        _ => t.range(0, 4) as f64,
    }
}

fn good_text(t: &mut Tape) -> String {
    let v = value_in(t);
    let n = if v.abs() > 1e9 { format!("{:e}", v) } else { number_text(t, v) };
    let key = *t.pick(&["objFuncVal", "objFuncVal", "objFuncVal", "obj\\u0046uncVal", "\\u006fbjFuncVal"]);
    format!("{}{{{}\"{}\"{}:{}{}{}}}{}", space(t), space(t), key, space(t), space(t), n, space(t), space(t))
}

fn bad_text(t: &mut Tape) -> Vec<u8> {
    let fixed: &[&str] = &[
        "", " ", "\n", "null", "3", "-1.5", "true", "\"x\"", "[]", "[1.0]", "[null]", "[{\"objFuncVal\": 1}]", "{\"objFuncVal\": \"1\"}",
        "{\"objFuncVal\": true}", "{\"objFuncVal\": [1]}", "{\"objFuncVal\": {}}", "{\"objFuncVal\": 1, \"x\": 2}", "{\"x\": 1}",
        "{\"x\": null, \"objFuncVal\": 1}", "{\"objfuncval\": 1}", "{\"objFuncVal \": 1}", "{\"ObjFuncVal\": 1}", "{\"\": 1}",
        "{\"objFuncVal\": 1, \"objFuncVal\": 2}", "{\"objFuncVal\": null, \"objFuncVal\": 2}", "{\"objFuncVal\": NaN}", "{\"objFuncVal\": Infinity}",
        "{\"objFuncVal\": -Infinity}", "{\"objFuncVal\": nan}", "{\"objFuncVal\": 1e400}", "{\"objFuncVal\": -1e999}", "{\"objFuncVal\": 1} x",
        "{\"objFuncVal\": 1}{\"objFuncVal\": 2}", "{\"objFuncVal\": 1}\n{\"objFuncVal\": 1}", "{\"objFuncVal\": 1},", "{\"objFuncVal\": 1", "{\"objFuncVal\":",
        "{\"objFuncVal\": 1,}", "{'objFuncVal': 1}", "{objFuncVal: 1}", "{\"objFuncVal\": +1}", "{\"objFuncVal\": 01}", "{\"objFuncVal\": .5}",
        "{\"objFuncVal\": 1.}", "{\"objFuncVal\": 1e}", "{\"objFuncVal\": 0x10}", "{\"objFuncVal\": 1_000}", "{\"objFuncVal\": 1,5}", "\u{feff}{\"objFuncVal\": 1}",
        "// c\n{\"objFuncVal\": 1}", "{\"objFuncVal\": 1}\0", "{\"objFuncVal\" 1}", "{\"objFuncVal\": undefined}", "{\"objFuncVal\": -}", "objFuncVal: 1", "1.0\n",
        "result: {\"objFuncVal\": 1}", "{\"objFuncVal\": nulll}", "{{\"objFuncVal\": 1}}", "{}{}", "{} 1", "{\"objFuncVal\": \"\"}", "{\"objFuncVal\": \"NaN\"}",
    ];
    match t.below(4) {
        0 => {
            // a good one cut short or with a byte changed
            let mut b = good_text(t).trim().as_bytes().to_vec();
            if t.chance(1, 2) {
                let n = t.usize(0, b.len() - 1);
                b.truncate(n);
            } else {
                let i = t.usize(0, b.len() - 1);
                b[i] = t.below(256) as u8;
            }
            b
        }
        1 => (0..t.usize(1, 40)).map(|_| t.below(256) as u8).collect(),
        _ => t.pick(fixed).as_bytes().to_vec(),
    }
}

fn noise(t: &mut Tape) -> Vec<u8> {
    match t.below(5) {
        0 => b"warning: something\n".to_vec(),
        1 => (0..t.usize(1, 60)).map(|_| t.below(256) as u8).collect(),
        2 => vec![0xff, 0xfe, 0x00, 0x80],
        3 => "{\"objFuncVal\": -1e9}\n".as_bytes().to_vec(),
        _ => vec![b'x'; t.usize(1000, 70_000)],
    }
}

/// An exit code other than 0, often one with a meaning somewhere.
pub fn exit_code(t: &mut Tape) -> i32 {
    match t.below(3) {
        0 => t.range(1, 255) as i32,
        1 => 1,
        _ => *t.pick(&[2, 3, 64, 65, 66, 70, 74, 75, 77, 78, 100, 101, 124, 125, 126, 127, 128, 129, 130, 134, 137, 139, 141, 143, 192, 254, 255]),
    }
}

/// kind 0: accepted, 1: rejected, 2: failing
pub fn behaviour(t: &mut Tape, kind: usize) -> Behaviour {
    let mut b = Behaviour { acts: Vec::new(), stdout: Vec::new(), stderr: Vec::new(), end: 0 };
    b.stdout = match kind {
        0 => good_text(t).into_bytes(),
        1 => {
            let s = if t.chance(1, 2) { "{}".to_string() } else { format!("{{{}\"objFuncVal\"{}:{}null{}}}", space(t), space(t), space(t), space(t)) };
            format!("{}{}{}", space(t), s, space(t)).into_bytes()
        }
        _ => match t.below(3) {
            0 => {
                b.end = match t.below(3) {
                    0 | 1 => exit_code(t),
                    _ => -*t.pick(&[9, 15, 11, 6, 2, 1, 13]),
                };
                if t.chance(1, 2) {
                    good_text(t).into_bytes()
                } else {
                    bad_text(t)
                }
            }
            _ => bad_text(t),
        },
    };
    if t.chance(1, 30) {
        // more than a pipe holds
        let n = t.usize(60_000, 300_000);
        if kind < 2 {
            let at = *t.pick(&[0, b.stdout.len()]);
            b.stdout.splice(at..at, std::iter::repeat(b' ').take(n));
        } else {
            let c = *t.pick(b"x {0");
            b.stdout.extend(std::iter::repeat(c).take(n));
            b.stdout.extend(b"the end");
        }
    }
    if t.chance(1, 4) {
        b.stderr = noise(t);
    }
    // the order of writes does not matter
    let (out, err) = (b.stdout.clone(), b.stderr.clone());
    if !err.is_empty() && t.chance(1, 2) {
        b.acts.push(json!(["err", latin1(&err)]));
    }
    if t.chance(1, 5) && out.len() > 1 {
        let at = t.usize(1, out.len() - 1);
        b.acts.push(json!(["out", latin1(&out[..at])]));
        b.acts.push(json!(["sleep", t.usize(0, 8)]));
        b.acts.push(json!(["out", latin1(&out[at..])]));
    } else {
        b.acts.push(json!(["out", latin1(&out)]));
    }
    if !err.is_empty() && b.acts[0][0] != json!("err") {
        b.acts.push(json!(["err", latin1(&err)]));
    }
    if b.end > 0 {
        b.acts.push(json!(["exit", b.end]));
    }
    if b.end < 0 {
        b.acts.push(json!(["sig", -b.end]));
    }
    b
}

// ------------------------------------------------------------ files

#[derive(Clone, Debug)]
pub struct Row {
    pub id: u64,
    pub meta: Vec<String>,
    pub input: J,
    pub seed: String,
    pub obj: Option<f64>,
    pub line: String,
}

pub fn csv_rows(bytes: &[u8]) -> Result<Vec<Row>, String> {
    let text = std::str::from_utf8(bytes).map_err(|_| "the detailed report is not UTF-8".to_string())?;
    if !text.ends_with('\n') {
        return Err("the detailed report does not end with a complete line".into());
    }
    let mut lines = text.lines();
    let header = lines.next().unwrap_or("");
    if header.split(';').count() != 10 {
        return Err(format!("the detailed report starts with {:?}", header));
    }
    let mut rows = Vec::new();
    for l in lines {
        let head: Vec<&str> = l.splitn(8, ';').collect();
        if head.len() < 8 {
            return Err(format!("line {:?} of the detailed report has too few fields", l));
        }
        let tail: Vec<&str> = head[7].rsplitn(3, ';').collect();
        if tail.len() < 3 {
            return Err(format!("line {:?} of the detailed report has too few fields", l));
        }
        let bad = |what: &str| format!("line {:?} of the detailed report: {}", l, what);
        let obj = if tail[0].is_empty() { None } else { Some(tail[0].parse().map_err(|_| bad("the objective value is no number"))?) };
        let time: f64 = head[1].parse().map_err(|_| bad("the time is no number"))?;
        if !(time >= 0.0) {
            return Err(bad("the time is negative"));
        }
        rows.push(Row {
            id: head[0].parse().map_err(|_| bad("the individual's id is no number"))?,
            meta: head[2..7].iter().map(|s| s.to_string()).collect(),
            input: parse_json(tail[2]).ok_or_else(|| bad("the parameters are not JSON"))?,
            seed: tail[1].to_string(),
            obj,
            line: l.to_string(),
        });
    }
    Ok(rows)
}

/// Records against the evaluations that were started: every record is one of them, once. Up to
/// `abortable` evaluations, in flight when the run was being stopped, may be recorded as rejected.
pub fn check_rows(rows: &[Row], by_seed: &BTreeMap<String, &Start>, mut abortable: usize, verdict: &dyn Fn(&Start) -> Option<Option<f64>>) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    let mut params: BTreeMap<u64, &J> = BTreeMap::new();
    for r in rows {
        if !seen.insert(&r.seed) {
            return Err(format!("two records with seed {}", r.seed));
        }
        let s = match by_seed.get(&r.seed) {
            Some(s) => s,
            None if r.obj.is_none() && abortable > 0 => {
                abortable -= 1; // killed before it could say that it was there
                continue;
            }
            None => return Err(format!("a record with seed {}, which was never started", r.seed)),
        };
        let arg = parse_json(&s.arg()).unwrap_or(J::Null);
        if !same_json(&arg, &r.input) {
            return Err(format!("the record of seed {} has parameters {} instead of {}", r.seed, r.input, arg));
        }
        if let Some(p) = params.insert(r.id, &r.input) {
            if !same_json(p, &r.input) {
                return Err(format!("two parameter sets for individual {}", r.id));
            }
        }
        match verdict(s) {
            Some(Some(_)) if r.obj.is_none() && abortable > 0 => abortable -= 1,
            Some(Some(v)) => {
                if r.obj.map_or(true, |o| (o - v).abs() > 1e-12 * v.abs()) {
                    return Err(format!("the record of seed {} has result {:?} instead of {}", r.seed, r.obj, v));
                }
            }
            Some(None) => {
                if r.obj.is_some() {
                    return Err(format!("the record of seed {} has result {:?} instead of a rejection", r.seed, r.obj));
                }
            }
            None => {}
        }
        if r.meta.iter().any(|m| !m.is_empty()) {
            for (i, what) in ["crossover probability", "selection pressure", "mutation probability", "mutation scale"].iter().enumerate() {
                let x: f64 = r.meta[i + 1].parse().map_err(|_| format!("the {} of seed {} is {:?}", what, r.seed, r.meta[i + 1]))?;
                let ok = if i < 3 { (0.0..=1.0).contains(&x) } else { x > 0.0 && x.is_finite() };
                if !ok {
                    return Err(format!("the {} of seed {} is {}", what, r.seed, x));
                }
            }
        }
    }
    Ok(())
}

/// With sample size 1 the best-seen file holds the parameters of a minimum record.
pub fn check_best_file(content: Option<Vec<u8>>, rows: &[Row]) -> Result<(), String> {
    let best = rows.iter().filter_map(|r| r.obj).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.min(b))));
    match (best, content) {
        (None, None) => Ok(()),
        (None, Some(_)) => Ok(()),
        (Some(_), None) => Err("there is no best-seen file".into()),
        (Some(min), Some(c)) => {
            let text = String::from_utf8_lossy(&c).into_owned();
            let j = parse_json(text.trim()).ok_or_else(|| format!("the best-seen file holds {:?}", cut(&text, 300)))?;
            if rows.iter().any(|r| r.obj == Some(min) && same_json(&r.input, &j)) {
                Ok(())
            } else {
                Err(format!("the best-seen file holds {}, which has no record with the minimum {}", j, min))
            }
        }
    }
}

pub struct Summary {
    pub best: f64,
    pub completed: usize,
    pub rejected: usize,
}

pub fn summary(bytes: &[u8]) -> Result<Summary, String> {
    let text = String::from_utf8_lossy(bytes).into_owned();
    let mut nums = Vec::new();
    for l in text.lines().take(3) {
        nums.push(l.rsplit(' ').next().and_then(|x| x.parse::<f64>().ok()).ok_or_else(|| format!("the summary is {:?}", text))?);
    }
    if nums.len() < 3 {
        return Err(format!("the summary is {:?}", text));
    }
    Ok(Summary { best: nums[0], completed: nums[1] as usize, rejected: nums[2] as usize })
}

pub fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

/// The Debug form of a string, undone.
fn undebug(s: &str) -> Option<String> {
    let inner = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut c = inner.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        match c.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '0' => out.push('\0'),
            'u' => {
                if c.next()? != '{' {
                    return None;
                }
                let mut h = String::new();
                loop {
                    match c.next()? {
                        '}' => break,
                        d => h.push(d),
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            x => out.push(x),
        }
    }
    Some(out)
}

// ------------------------------------------------------------ oracle parts

pub fn started(r: &Ran) -> Result<BTreeMap<String, &Start>, String> {
    let mut m = BTreeMap::new();
    for s in &r.starts {
        if m.insert(s.seed.clone(), s).is_some() {
            return r.fail(format!("seed {} is used twice", s.seed));
        }
    }
    Ok(m)
}

/// The call has the documented form and the parameters conform.
pub fn check_calls(r: &Ran, spec: &Node, program: &[u8], user_args: &[OsString]) -> Result<(), String> {
    for s in &r.starts {
        let want = user_args.len() + 3;
        if s.argv.len() != want {
            return r.fail(format!("the objective program gets {} arguments instead of {}", s.argv.len() - 1, want - 1));
        }
        if s.argv[0] != program {
            return r.fail(format!("the objective program is started as {:?}", String::from_utf8_lossy(&s.argv[0])));
        }
        for (i, a) in user_args.iter().enumerate() {
            if s.argv[i + 1] != a.as_bytes() {
                return r.fail(format!("user argument {} arrives as {:?} instead of {:?}", i, String::from_utf8_lossy(&s.argv[i + 1]), a));
            }
        }
        if s.seed.parse::<u64>().map(|n| n.to_string() != s.seed).unwrap_or(true) {
            return r.fail(format!("the seed argument is {:?}", s.seed));
        }
        match parse_json(&s.arg()) {
            None => return r.fail(format!("the parameter argument {:?} is not JSON", s.arg())),
            Some(j) => {
                if let Err(m) = conforms_json(spec, &j, "") {
                    return r.fail(format!("the parameters {} do not conform: {}", j, m));
                }
            }
        }
    }
    Ok(())
}

/// No panic, no hang, no death by signal.
pub fn check_ended(r: &Ran) -> Result<(), String> {
    if r.panicked() {
        return r.fail("the tool panics");
    }
    if r.timed_out {
        return r.fail("the tool does not end");
    }
    if r.code.is_none() {
        return r.fail(format!("the tool dies of signal {:?}", r.signal));
    }
    Ok(())
}

pub fn check_failure(r: &Ran) -> Result<(), String> {
    check_ended(r)?;
    if r.code == Some(0) {
        return r.fail("the tool exits with 0 instead of an error");
    }
    if !r.stdout.is_empty() {
        return r.fail("a failing run prints something to stdout");
    }
    if r.stderr.is_empty() {
        return r.fail("a failing run prints no error message");
    }
    Ok(())
}

/// The best-seen parameters on the one line of stdout.
pub fn check_success(r: &Ran, spec: &Node) -> Result<J, String> {
    check_ended(r)?;
    if r.code != Some(0) {
        return r.fail("the tool fails although the run should succeed");
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let line = match text.strip_suffix('\n') {
        Some(l) if !l.contains('\n') => l,
        _ => return r.fail("stdout is not exactly one line"),
    };
    let j = match parse_json(line) {
        Some(j) => j,
        None => return r.fail("stdout is not JSON"),
    };
    if let Err(m) = conforms_json(spec, &j, "") {
        return r.fail(format!("the reported parameters do not conform: {}", m));
    }
    if !r.starts.iter().any(|s| parse_json(&s.arg()).map_or(false, |a| same_json(&a, &j))) {
        return r.fail("the reported parameters were never evaluated");
    }
    Ok(j)
}

pub fn no_survivors(r: &Ran) -> Result<(), String> {
    if !r.survivors.is_empty() {
        return r.fail(format!("processes outlive the run: {}", r.survivors.join(", ")));
    }
    Ok(())
}

fn out_name(t: &mut Tape) -> String {
    t.pick(&["out", "a/b/out", "o u t", "./x", "ü"]).to_string()
}

// ------------------------------------------------------------ C16: the protocol

pub fn protocol(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut p = Plan::new(small_spec(t));
    p.nc = *t.pick(&[1, 1, 1, 2, 3, 5]);
    p.budget = Some(t.usize(1, 9));
    let n = p.budget.unwrap();
    if t.chance(3, 4) {
        p.out = Some(out_name(t));
    }
    p.verbose = t.chance(1, 4);
    p.force = t.chance(1, 4);
    p.user_args = (0..t.usize(0, 3)).map(|_| user_arg(t)).collect();
    if t.chance(1, 4) {
        p.kill_after = Some(t.pick(super::procs::FAR).to_string());
    }
    if t.chance(1, 4) {
        p.terminate_after = Some(t.pick(super::procs::FAR).to_string());
    }
    let failing = t.chance(1, 2);
    let fails_at = t.usize(0, n - 1);
    let mut bs: Vec<Behaviour> = Vec::new();
    for i in 0..n {
        let kind = if failing && i == fails_at {
            2
        } else if t.chance(1, 4) {
            1
        } else {
            0
        };
        bs.push(behaviour(t, kind));
    }
    // the verdicts rule, whatever was intended
    let verdicts: Vec<Option<Option<f64>>> = bs.iter().map(|b| b.verdict()).collect();
    if p.nc == 1 && t.chance(1, 3) {
        p.target = Some(value_in(t));
    }
    let mut job = Job::new("proto")?;
    let mut program = objfn();
    if t.chance(1, 4) {
        let link = job.file("my prog");
        std::os::unix::fs::symlink(objfn(), &link).map_err(|e| format!("{}{}", HARNESS, e))?;
        program = if t.chance(1, 2) { link } else { "./my prog".into() };
    }
    let spec_path = job.put("spec.yaml", to_yaml(&p.spec).as_bytes())?;
    let prog = program.clone().into_os_string();
    p.apply_with(t, &mut job, spec_path.into_os_string(), prog)?;
    job.scen = json!({"order": bs.iter().map(|b| json!(b.acts)).collect::<Vec<_>>(), "default": [["exit", 77]]});
    let r = job.run()?;
    check_ended(&r)?;
    check_calls(&r, &p.spec, program.as_os_str().as_bytes(), &p.user_args)?;
    let by_seed = started(&r)?;
    if r.starts.len() > n {
        return r.fail(format!("{} evaluations with a budget of {}", r.starts.len(), n));
    }
    let of = |s: &Start| verdicts[s.index];
    // what has to happen
    let mut expect_failure: Option<usize> = None;
    let mut best: Option<f64> = None;
    let mut rejected = 0;
    let mut done = 0;
    for (i, v) in verdicts.iter().enumerate() {
        match v {
            None => {
                expect_failure = Some(i);
                break;
            }
            Some(None) => {
                rejected += 1;
                done += 1;
            }
            Some(Some(x)) => {
                done += 1;
                best = Some(best.map_or(*x, |b: f64| b.min(*x)));
                if p.target.map_or(false, |t| best.unwrap() <= t) {
                    break;
                }
            }
        }
    }
    if p.nc == 1 {
        let want = done + expect_failure.is_some() as usize;
        if r.starts.len() != want {
            return r.fail(format!("{} evaluations were started instead of {}", r.starts.len(), want));
        }
    }
    let out = p.out.as_ref().map(|o| job.file(o));
    let failed = expect_failure.is_some();
    if failed || best.is_none() {
        check_failure(&r)?;
    } else {
        let j = check_success(&r, &p.spec)?;
        let min = best.unwrap();
        if !r.starts.iter().any(|s| of(s).flatten().map_or(false, |v| v == min || (v - min).abs() <= 1e-12 * min.abs()) && same_json(&parse_json(&s.arg()).unwrap(), &j)) {
            return r.fail(format!("the reported parameters did not yield the minimum {}", min));
        }
        if let Some(o) = &out {
            let s = match read(&o.join("summary_report.txt")) {
                Some(b) => summary(&b).or_else(|m| r.fail(m))?,
                None => return r.fail("there is no summary file"),
            };
            if s.best != min && (s.best - min).abs() > 1e-12 * min.abs() {
                return r.fail(format!("the summary reports {} instead of {}", s.best, min));
            }
            if (s.completed, s.rejected) != (done - rejected, rejected) {
                return r.fail(format!("the summary counts {} completed and {} rejected instead of {} and {}", s.completed, s.rejected, done - rejected, rejected));
            }
        }
    }
    if let Some(o) = &out {
        let rows = match read(&o.join("detailed_report.csv")) {
            Some(b) => csv_rows(&b).or_else(|m| r.fail(m))?,
            None => return r.fail("there is no detailed report"),
        };
        check_rows(&rows, &by_seed, if failed { p.nc - 1 } else { 0 }, &of).or_else(|m| r.fail(m))?;
        if (p.nc == 1 || !failed) && rows.len() != done {
            return r.fail(format!("{} records of {} processed evaluations", rows.len(), done));
        }
        check_best_file(read(&o.join("best_seen.json")), &rows).or_else(|m| r.fail(m))?;
        let dumps: Vec<Option<Vec<u8>>> = ["arg", "stdout", "stderr"].iter().map(|x| read(&o.join(format!("failed_obj_func_{}", x)))).collect();
        if failed {
            let (Some(arg), Some(so), Some(se)) = (&dumps[0], &dumps[1], &dumps[2]) else {
                return r.fail("the files with the failing arguments and output are missing");
            };
            let text = String::from_utf8_lossy(arg).into_owned();
            let Some((json_text, seed)) = text.trim_end().rsplit_once(' ') else {
                return r.fail(format!("the failing arguments are {:?}", text));
            };
            let Some(s) = by_seed.get(seed) else {
                return r.fail(format!("the failing arguments are {:?}, a seed that was never started", text));
            };
            if of(s).is_some() {
                return r.fail(format!("the failing arguments are {:?}, but that evaluation did not fail", text));
            }
            if json_text != s.arg() && undebug(json_text).as_deref() != Some(&s.arg()) {
                return r.fail(format!("the failing arguments are {:?} instead of {:?}", json_text, s.arg()));
            }
            let b = &bs[s.index];
            if *so != b.stdout || *se != b.stderr {
                return r.fail(format!(
                    "the dumped output is {:?} and {:?} instead of {:?} and {:?}",
                    cut(&String::from_utf8_lossy(so), 200),
                    cut(&String::from_utf8_lossy(se), 200),
                    cut(&String::from_utf8_lossy(&b.stdout), 200),
                    cut(&String::from_utf8_lossy(&b.stderr), 200)
                ));
            }
        } else if dumps.iter().any(|d| d.is_some()) {
            return r.fail("files of a failed evaluation although none failed");
        }
    }
    for (k, on) in [("a failing child", failed), ("success", !failed && best.is_some()), ("only rejections", !failed && best.is_none()), ("concurrent", p.nc > 1), ("target", p.target.is_some()), ("rejections", rejected > 0)] {
        if on {
            ctx.label(k);
        }
    }
    ctx.num("starts", r.starts.len() as u64);
    ctx.nontrivial(&format!("{:?}{}", job.args.len(), job.scen));
    ctx.sample(|| json!({"command": cut(&r.cmdline, 500), "children": bs.iter().map(|b| format!("stdout {:?}, end {}", cut(&String::from_utf8_lossy(&b.stdout), 80), b.end)).collect::<Vec<_>>(), "exit": r.code, "stdout": cut(&String::from_utf8_lossy(&r.stdout), 200)}));
    Ok(())
}

// ------------------------------------------------------------ C16: output directories

fn snapshot(p: &Path, at: &Path, out: &mut BTreeMap<String, String>) {
    let Ok(m) = std::fs::symlink_metadata(p) else { return };
    let name = p.strip_prefix(at).unwrap_or(p).to_string_lossy().into_owned();
    if m.is_symlink() {
        out.insert(name, format!("link to {:?}", std::fs::read_link(p).ok()));
    } else if m.is_dir() {
        out.insert(name, "directory".into());
        let mut e: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
        e.sort();
        e.iter().for_each(|c| snapshot(c, at, out));
    } else {
        out.insert(name, format!("file {:?}", std::fs::read(p).unwrap_or_default()));
    }
}

pub fn out_dirs(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut job = Job::new("outdir")?;
    let h = |e: std::io::Error| format!("{}{}", HARNESS, e);
    let world = job.file("world");
    std::fs::create_dir(&world).map_err(h)?;
    job.own(&world)?;
    let fill = |t: &mut Tape, job: &Job, dir: &Path| -> Result<(), String> {
        for i in 0..t.usize(0, 4) {
            let name = *t.pick(&["summary_report.txt", "detailed_report.csv", "best_seen.json", "failed_obj_func_arg", "notes", "failed_obj_func_stdout"]);
            let p = dir.join(name);
            if t.chance(1, 4) {
                let d = dir.join(format!("sub{}", i));
                std::fs::create_dir_all(&d).map_err(h)?;
                job.own(&d)?;
                std::fs::write(d.join("deep"), b"precious").map_err(h)?;
                job.own(&d.join("deep"))?;
            } else {
                std::fs::write(&p, format!("old {} {}", name, i)).map_err(h)?;
                job.own(&p)?;
            }
        }
        Ok(())
    };
    let neighbour = world.join("neighbour");
    std::fs::create_dir(&neighbour).map_err(h)?;
    job.own(&neighbour)?;
    fill(t, &job, &neighbour)?;
    let what = *t.pick(&["absent", "directory", "empty directory", "file", "link to a directory", "dangling link", "absent, nested"]);
    let out = if what == "absent, nested" { world.join("p/q/out") } else { world.join("out") };
    match what {
        "directory" | "empty directory" => {
            std::fs::create_dir(&out).map_err(h)?;
            job.own(&out)?;
            if what == "directory" {
                std::fs::write(out.join("old"), b"old").map_err(h)?;
                job.own(&out.join("old"))?;
                fill(t, &job, &out)?;
            }
        }
        "file" => {
            std::fs::write(&out, b"content").map_err(h)?;
            job.own(&out)?;
        }
        "link to a directory" => std::os::unix::fs::symlink("neighbour", &out).map_err(h)?,
        "dangling link" => std::os::unix::fs::symlink("nowhere", &out).map_err(h)?,
        _ => {}
    }
    job.own(&out).ok();
    let mut p = Plan::new(small_spec(t));
    p.force = t.chance(1, 2);
    p.budget = Some(t.usize(1, 4));
    p.verbose = t.chance(1, 4);
    let rel = out.strip_prefix(&job.dir.path).unwrap().to_string_lossy().into_owned();
    p.out = Some(match t.below(3) {
        0 => rel,
        1 => out.to_string_lossy().into_owned(),
        _ => format!("{}/", rel),
    });
    let trailing = p.out.as_ref().unwrap().ends_with('/');
    p.apply(t, &mut job)?;
    job.scen = json!({"default": [["value", *t.pick(KINDS)]]});
    if t.chance(1, 6) {
        job.scen = json!({"default": [["exit", 3]]});
    }
    let ok_child = job.scen["default"][0][0] == json!("value");
    let mut before = BTreeMap::new();
    snapshot(&world, &job.dir.path, &mut before);
    let r = job.run()?;
    check_ended(&r)?;
    let mut after = BTreeMap::new();
    snapshot(&world, &job.dir.path, &mut after);
    let exists = matches!(what, "directory" | "empty directory" | "file" | "link to a directory");
    if exists && !p.force && !(what == "file" && trailing) {
        check_failure(&r)?;
        if !r.starts.is_empty() {
            return r.fail("an existing output directory does not keep evaluations from being started");
        }
        if before != after {
            return r.fail(format!("the existing output directory ({}) is changed: {:?} became {:?}", what, before, after));
        }
    }
    // whatever happens to the output directory, nothing else changes
    let prefix = format!("{}/", out.strip_prefix(&job.dir.path).unwrap().to_string_lossy());
    let rest = |m: &BTreeMap<String, String>| -> BTreeMap<String, String> {
        m.iter()
            .filter(|(k, _)| !(k.starts_with(&prefix) || format!("{}/", k) == prefix))
            .filter(|(k, _)| !(what == "absent, nested" && (*k == "world/p" || *k == "world/p/q")))
            .filter(|(k, _)| !(what == "link to a directory" && p.force && k.starts_with("world/neighbour")))
            .filter(|(k, _)| !(what == "dangling link" && k.starts_with("world/nowhere")))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect()
    };
    if rest(&before) != rest(&after) {
        return r.fail(format!("something beside the output directory is changed: {:?} became {:?}", rest(&before), rest(&after)));
    }
    let fresh = what.starts_with("absent") || (matches!(what, "directory" | "empty directory") && p.force);
    if fresh {
        let any_value = r.starts.iter().any(|s| {
            let k = job.scen["default"][0][1].as_str().unwrap_or("");
            obj_value(k, &s.arg(), &s.seed).is_some()
        });
        if ok_child && any_value {
            check_success(&r, &p.spec)?;
            let names: BTreeSet<String> = std::fs::read_dir(&out).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
            for n in ["summary_report.txt", "detailed_report.csv", "best_seen.json"] {
                if !names.contains(n) {
                    return r.fail(format!("{} is missing in the output directory", n));
                }
            }
            if names.len() != 3 {
                return r.fail(format!("the output directory holds {:?}", names));
            }
        } else {
            check_failure(&r)?;
            if !ok_child {
                let names: BTreeSet<String> = std::fs::read_dir(&out).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
                if !["arg", "stdout", "stderr"].iter().all(|n| names.contains(&format!("failed_obj_func_{}", n))) {
                    return r.fail(format!("after a failure the output directory holds {:?}", names));
                }
                if names.contains("old") || names.contains("notes") {
                    return r.fail(format!("with --force the output directory still holds {:?}", names));
                }
            }
        }
    }
    ctx.label(format!("{}{}", what, if p.force { ", forced" } else { "" }));
    ctx.nontrivial(&format!("{}{:?}{:?}", what, before, job.args));
    ctx.sample(|| json!({"output directory": what, "command": cut(&r.cmdline, 400), "before": before.len(), "after": after.len(), "exit": r.code}));
    Ok(())
}

// ------------------------------------------------------------ C16: invalid options

pub fn options(t: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    let mut job = Job::new("opts")?;
    let mut p = Plan::new(small_spec(t));
    p.budget = Some(t.usize(1, 5));
    p.nc = t.usize(1, 3);
    let with_out = t.chance(1, 2);
    if with_out {
        p.out = Some("out".into());
    }
    let mut before = BTreeMap::new();
    let existing = with_out && t.chance(1, 2);
    if existing {
        let o = job.file("out");
        std::fs::create_dir(&o).map_err(|e| format!("{}{}", HARNESS, e))?;
        job.own(&o)?;
        std::fs::write(o.join("old"), b"old").map_err(|e| format!("{}{}", HARNESS, e))?;
        snapshot(&o, &job.dir.path, &mut before);
    }
    let mut extra: Vec<OsString> = Vec::new();
    let mut spec_text: Option<Vec<u8>> = None;
    let mut spec_name: OsString = "spec.yaml".into();
    let mut program = objfn().into_os_string();
    let mut drop_spec = false;
    let kind = t.below(14);
    let what = match kind {
        0 => {
            let v = *t.pick(&["0", "-1", "abc", "1.5", "", "1e3", "99999999999999999999999", "0x4", " 2", "NaN"]);
            p.nc = 1;
            extra.push(format!("--num-concurrent={}", v).into());
            format!("number of concurrent evaluations {:?}", v)
        }
        1 => {
            let v = *t.pick(&["0", "-1", "abc", "2.0", "", "1e3", "184467440737095516150"]);
            extra.push(format!("--sample-size={}", v).into());
            format!("sample size {:?}", v)
        }
        2 => {
            p.budget = None;
            let v = *t.pick(&["-1", "abc", "2.5", "", "1e3", "18446744073709551616", "inf"]);
            extra.push(format!("--max-obj-func-eval={}", v).into());
            format!("budget {:?}", v)
        }
        3 => {
            let v = *t.pick(&["abc", "", "nan", "inf", "-inf", "NaN", "infinity", "-Infinity", "1e999", "1,5", "0x1", "--"]);
            extra.push(format!("--target-obj-func-val={}", v).into());
            format!("target {:?}", v)
        }
        4 | 5 => {
            let v = *t.pick(&["", "abc", "-1s", "5 parsecs", "s", "1ss", "1..5s", "nan s", "inf", "ten seconds"]);
            let o = if kind == 4 { "terminate-after" } else { "kill-obj-func-after" };
            extra.push(format!("--{}={}", o, v).into());
            format!("{} {:?}", o, v)
        }
        6 => {
            let v: &str = *t.pick(&["{", "", "{\"a\":}", "nope", "[1,", "1 2", "{'a': 1}", "NaN"]);
            extra.push(format!("--initial-guess={}", v).into());
            format!("initial guess text {:?}", v)
        }
        7 | 8 => {
            let cfg = GenCfg { max_depth: 2, size: 6, extremes: false, dup_enum: false, ..GenCfg::default() };
            let Some((spec, j, how, _)) = broken_guess(t, &cfg) else { return Ok(()) };
            if to_yaml(&spec.0).contains("1.0e") || accepts_text(&spec.0, &j.to_string()) {
                return Ok(());
            }
            p.spec = spec.0;
            extra.push(format!("--initial-guess={}", j).into());
            format!("non-conforming guess ({})", how)
        }
        9 => {
            match t.below(4) {
                0 => spec_name = "absent.yaml".into(),
                1 => spec_name = ".".into(),
                2 => spec_text = Some(vec![0xff, 0xfe, 0x41]),
                _ => {
                    spec_text = Some(
                        t.pick(&["", "{", "3", "[]", "type: nope", "{type: real, init: 1.0}", "{type: real, init: 5.0, scale: 1.0, max: 2.0}", "a: [1", "x: {type: real, init: .nan, scale: 1.0}", "{type: int, init: 1, scale: -1.0}", "{type: array, size: 1, valueType: {type: bool, init: true}}"])
                            .as_bytes()
                            .to_vec(),
                    )
                }
            }
            format!("spec file {:?} {:?}", spec_name, spec_text.as_ref().map(|b| latin1(b)))
        }
        10 => {
            let v = *t.pick(&["--nonsense", "-x", "--num-concurrent", "--verbose=maybe", "--force=1", "--spec_file=x"]);
            extra.push(v.into());
            format!("option {:?}", v)
        }
        11 => {
            let v = *t.pick(&["--num-concurrent=1 --num-concurrent=2", "--sample-size=1 --sample-size=1", "-v -v", "--terminate-after=5s --terminate-after=6s", "-t 1 -t 2"]);
            extra.extend(v.split(' ').map(OsString::from));
            format!("doubled {:?}", v)
        }
        12 => {
            drop_spec = true;
            "no spec file".into()
        }
        _ => {
            let name = *t.pick(&["absent", "directory", "plain", "no-shebang", "", "broken-shebang"]);
            program = match name {
                "directory" => {
                    std::fs::create_dir(job.file("d")).map_err(|e| format!("{}{}", HARNESS, e))?;
                    "./d".into()
                }
                "plain" => {
                    job.put("plain", b"#!/bin/sh\necho '{\"objFuncVal\": 1}'\n")?;
                    "./plain".into()
                }
                "no-shebang" | "broken-shebang" => {
                    let f = job.put("np", if name == "no-shebang" { b"\x7fnot really" } else { b"#!/no/such/int" })?;
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).map_err(|e| format!("{}{}", HARNESS, e))?;
                    "./np".into()
                }
                "absent" => "./absent-program".into(),
                _ => "".into(),
            };
            format!("unlaunchable program ({})", name)
        }
    };
    if spec_name == "spec.yaml" {
        job.put("spec.yaml", &spec_text.unwrap_or_else(|| to_yaml(&p.spec).into_bytes()))?;
    }
    p.force = existing && kind == 13;
    p.apply_with(t, &mut job, spec_name, program)?;
    if drop_spec {
        // drop the spec option again
        let mut i = 0;
        while i < job.args.len() {
            let a = job.args[i].to_string_lossy().into_owned();
            if a == "-s" || a == "--spec-file" {
                job.args.drain(i..i + 2);
            } else if a.starts_with("--spec-file=") || (a.starts_with("-s") && a.ends_with("spec.yaml")) {
                job.args.remove(i);
            } else {
                i += 1;
            }
        }
    }
    let at = t.usize(0, 1);
    let at = if at == 1 && !job.args.iter().any(|a| a == "--") && !extra.iter().any(|e| e == "--num-concurrent") { job.args.len() } else { 0 };
    // a dangling "--num-concurrent" swallows what follows and still is an error
    for (i, e) in extra.into_iter().enumerate() {
        job.args.insert(at + i, e);
    }
    let r = job.run()?;
    ctx.label(what.split(['(', '"']).next().unwrap_or("").trim().to_string());
    check_ended(&r).map_err(|m| format!("{}: {}", what, m))?;
    if !r.starts.is_empty() {
        return r.fail(format!("{}: an evaluation is started", what));
    }
    check_failure(&r).map_err(|m| format!("{}: {}", what, m))?;
    if existing && !p.force {
        let mut after = BTreeMap::new();
        snapshot(&job.file("out"), &job.dir.path, &mut after);
        if before != after {
            return r.fail(format!("{}: the existing output directory is changed", what));
        }
    }
    ctx.nontrivial(&format!("{}{:?}", what, job.args));
    ctx.sample(|| json!({"invalid": what, "command": cut(&r.cmdline, 300), "exit": r.code, "stderr": cut(&String::from_utf8_lossy(&r.stderr), 200)}));
    Ok(())
}

/// Does the text conform after all, read with correctly rounded numbers or (known finding
/// float-text of C11) with the reader's?
fn accepts_text(spec: &Node, text: &str) -> bool {
    let read = [parse_json(text), serde_json::from_str(text).ok()];
    read.iter().flatten().any(|j| super::c11::accepts(spec, j).is_ok())
}
