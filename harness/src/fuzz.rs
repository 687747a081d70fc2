//! Coverage-guided search (libFuzzer): the body of the fuzz target in /verif/fuzz, and the driver
//! that the thorough tier runs it with.
use crate::engine::{self, run_case, Check, Ctx, Family, Outcome};
use crate::tape::Tape;
use serde_json::{json, Value as J};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// Families whose cases run in this process alone, without threads or real time.
pub const FUZZED: &[(&str, &str)] = &[
    ("C01", "run"),
    ("C01", "operators"),
    ("C02", "run"),
    ("C03", "run"),
    ("C04", "run"),
    ("C05", "run"),
    ("C06", "run"),
    ("C08", "run"),
    ("C10", "wellformed"),
    ("C10", "broken"),
    ("C10", "soup"),
    ("C10", "mangled"),
    ("C10", "tokens"),
    ("C11", "roundtrip"),
    ("C11", "broken"),
    ("C11", "any"),
    ("C12", "lists"),
    ("C12", "bred"),
    ("C13", "general"),
    ("C13", "nested_maps"),
    ("C14", "records"),
    ("C15", "run"),
    ("C17", "liveness"),
];

fn chosen() -> &'static (Check, Family) {
    static C: OnceLock<(Check, Family)> = OnceLock::new();
    C.get_or_init(|| {
        engine::install_panic_hook();
        let want = std::env::var("VH_FUZZ").expect("VH_FUZZ");
        let (p, f) = want.split_once('/').expect("VH_FUZZ=<property>/<family>");
        let c = crate::checks::all().into_iter().find(|c| c.id == p).expect("property");
        let f = c.families.iter().find(|x| x.name == f).expect("family").clone();
        (c, f)
    })
}

pub fn one(data: &[u8]) {
    let (_, fam) = chosen();
    let mut t = Tape::bytes(data.to_vec());
    let mut ctx = Ctx::default();
    let msg = match run_case(fam.case, &mut t, &mut ctx) {
        Outcome::Violation(m) => m,
        _ => return,
    };
    if let Ok(out) = std::env::var("VH_FUZZ_OUT") {
        std::fs::write(out, json!({"tape": t.out, "message": msg}).to_string()).ok();
    }
    eprintln!("VIOLATION: {}", msg);
    std::process::abort();
}

pub struct Found {
    pub tape: Vec<u64>,
    pub msg: String,
}

fn number(text: &str, key: &str) -> u64 {
    text.rsplit(key).next().unwrap_or("").trim_start().split(|c: char| !c.is_ascii_digit()).next().unwrap_or("").parse().unwrap_or(0)
}

/// Runs the fuzz target on one family: `jobs` independent searches from the tapes of random cases.
pub fn search(check: &Check, fam: &Family, seed: u64, jobs: u64, secs: u64) -> Result<(J, Option<Found>), String> {
    let exe: PathBuf = engine::verif_dir().join("target/fuzz/x86_64-unknown-linux-gnu/release/tape");
    if !exe.exists() {
        return Err("the fuzz target is not built".into());
    }
    let dir = crate::cli::Scratch::new("fuzz")?;
    let mut children = Vec::new();
    for j in 0..jobs {
        let d = dir.path.join(j.to_string());
        let corpus = d.join("corpus");
        std::fs::create_dir_all(&corpus).map_err(|e| e.to_string())?;
        for i in 0..200u64 {
            let mut t = Tape::random(engine::case_seed(seed, check.id, fam.name, i * jobs + j + (1 << 40)));
            t.encode = Some(Vec::new());
            let mut ctx = Ctx::default();
            run_case(fam.case, &mut t, &mut ctx);
            std::fs::write(corpus.join(i.to_string()), t.encode.take().unwrap_or_default()).map_err(|e| e.to_string())?;
        }
        let log = std::fs::File::create(d.join("log")).map_err(|e| e.to_string())?;
        let c = Command::new(&exe)
            .env("VH_FUZZ", format!("{}/{}", check.id, fam.name))
            .env("VH_FUZZ_OUT", d.join("found.json"))
            .current_dir(&d)
            .arg(&corpus)
            .arg(format!("-seed={}", (seed * 1000 + j) as u32))
            .arg(format!("-max_total_time={}", secs))
            .args(["-max_len=16384", "-len_control=0", "-timeout=120", "-rss_limit_mb=3500", "-detect_leaks=0", "-print_final_stats=1", "-use_value_profile=1"])
            .arg(format!("-artifact_prefix={}/", d.display()))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .map_err(|e| e.to_string())?;
        children.push((c, d));
    }
    let mut found = None;
    let (mut execs, mut cov, mut corpus) = (0, 0, 0);
    let mut odd = Vec::new();
    for (mut c, d) in children {
        let status = c.wait().map_err(|e| e.to_string())?;
        let log = String::from_utf8_lossy(&std::fs::read(d.join("log")).unwrap_or_default()).into_owned();
        execs += number(&log, "stat::number_of_executed_units:");
        cov = cov.max(number(&log, " cov: "));
        corpus += number(&log, " corp: ");
        if let Some(f) = read_found(&d.join("found.json")) {
            found = found.or(Some(f));
        } else if !status.success() {
            odd.push(format!("{}: {}", status, log.lines().filter(|l| l.contains("ERROR") || l.contains("SUMMARY")).collect::<Vec<_>>().join(" ")));
        }
    }
    let report = json!({"searches": jobs, "seconds_each": secs, "executions": execs, "edges_covered": cov, "corpus_entries": corpus, "ended_early": odd});
    Ok((report, found))
}

fn read_found(p: &Path) -> Option<Found> {
    let j: J = serde_json::from_slice(&std::fs::read(p).ok()?).ok()?;
    Some(Found { tape: j["tape"].as_array()?.iter().filter_map(|v| v.as_u64()).collect(), msg: j["message"].as_str()?.to_string() })
}
