use vh::engine::{self, Opts};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::install_panic_hook();
    let checks = vh::checks::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let doc: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
            match checks.iter().find(|c| Some(c.id) == doc["property"].as_str()) {
                Some(c) => engine::replay(c, &doc),
                None => 2,
            }
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let opts = Opts {
                seed,
                thorough: tier == "thorough",
                only: args.get(3).cloned(),
                scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
                guided: match std::env::var("VH_GUIDED").ok().and_then(|s| s.parse().ok()) {
                    Some(n) => n,
                    None if tier == "thorough" => 180,
                    None => 0,
                },
                begun: std::time::Instant::now(),
            };
            match checks.iter().find(|c| Some(c.id) == args.get(1).map(|s| s.as_str())) {
                Some(c) => engine::run_check(c, &opts),
                None => 2,
            }
        }
        Some("sup") => vh::cli::supervise(&args[1]),
        Some("measure") => vh::checks::c17::measure_main(args.get(1).is_some()),
        Some("digest") => vh::checks::c09::digest_main(args.get(1).is_some()),
        Some("parse") => vh::checks::c10::parse_main(&args[1]),
        _ => {
            eprintln!("usage: vh run <property> [quick|thorough] [family] | vh replay <file>");
            2
        }
    };
    vh::cli::cleanup();
    std::process::exit(code);
}
