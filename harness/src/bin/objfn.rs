//! The scripted objective program: `objfn <user args...> <json> <seed>`. What it does for a seed is
//! read from $VH_DIR/scen.json ("order": by position in the sequence of starts, "seeds": by seed,
//! "default"); what happened is appended to $VH_DIR/log.
use serde_json::Value as J;
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::CommandExt;
use std::time::Duration;
use vh::cli::{bytes, latin1, now_ns, obj_value};

fn log(line: String) {
    let dir = std::env::var("VH_DIR").expect("VH_DIR");
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/log", dir)).expect("log");
    f.write_all((line + "\n").as_bytes()).expect("log");
}

struct Who {
    arg: String,
    seed: String,
    leader: bool,
}

impl Who {
    fn end(&self) {
        if self.leader {
            log(format!("E {} {} {}", self.seed, std::process::id(), now_ns()));
        }
    }
}

fn write_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const libc::c_void, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

fn starts(dir: &str) -> usize {
    std::fs::read(format!("{}/log", dir)).unwrap_or_default().split(|b| *b == b'\n').filter(|l| l.starts_with(b"S ")).count()
}

fn act(who: &Who, a: &J) {
    let dir = std::env::var("VH_DIR").expect("VH_DIR");
    let n = |i: usize| a[i].as_i64().unwrap_or(0);
    let s = |i: usize| a[i].as_str().unwrap_or("");
    match s(0) {
        "sleep" => std::thread::sleep(Duration::from_millis(n(1) as u64)),
        "out" => write_fd(1, &bytes(s(1))),
        "err" => write_fd(2, &bytes(s(1))),
        "outrep" => write_fd(1, &vec![n(1) as u8; n(2) as usize]),
        "errrep" => write_fd(2, &vec![n(1) as u8; n(2) as usize]),
        "value" => {
            let v = obj_value(s(1), &who.arg, &who.seed);
            let text = v.map_or("null".to_string(), |v| serde_json::to_string(&v).expect("finite"));
            write_fd(1, format!("{{\"objFuncVal\": {}}}\n", text).as_bytes());
        }
        "exit" => {
            who.end();
            unsafe { libc::_exit(n(1) as i32) }
        }
        "sig" => {
            if n(1) as i32 != libc::SIGSTOP {
                who.end();
            }
            unsafe {
                libc::signal(n(1) as i32, libc::SIG_DFL);
                libc::kill(libc::getpid(), n(1) as i32);
            }
        }
        "close" => unsafe {
            libc::close(n(1) as i32);
        },
        "ignore" => unsafe {
            libc::signal(n(1) as i32, libc::SIG_IGN);
        },
        "spawn" => {
            let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
            c.env("VH_ACTIONS", a[1].to_string());
            if a[2] == J::Bool(true) {
                c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            }
            c.stdin(std::process::Stdio::null());
            if a[3] == J::Bool(true) {
                unsafe {
                    c.pre_exec(|| {
                        libc::setsid();
                        Ok(())
                    });
                }
            }
            c.spawn().expect("spawn");
        }
        "escaped" => log(format!("X {}", std::process::id())),
        "wait" => {
            while !std::path::Path::new(&format!("{}/{}", dir, s(1))).exists() {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        "starts" => {
            while starts(&dir) < n(1) as usize {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        // ["turn", budget, concurrency]: ends in an order that is a function of the seeds only,
        // each after the one before has been replaced
        "turn" => loop {
            let text = std::fs::read(format!("{}/log", dir)).unwrap_or_default();
            let text = String::from_utf8_lossy(&text).into_owned();
            let (mut begun, mut ended) = (Vec::new(), Vec::new());
            for l in text.lines() {
                let mut f = l.split(' ');
                match (f.next(), f.next().and_then(|s| s.parse::<u64>().ok())) {
                    (Some("S"), Some(k)) => begun.push(k),
                    (Some("E"), Some(k)) => ended.push(k),
                    _ => {}
                }
            }
            let full = begun.len() >= (n(1) as usize).min(ended.len() + n(2) as usize);
            let first = begun.iter().filter(|k| !ended.contains(k)).min();
            if full && first == who.seed.parse().ok().as_ref() {
                if begun.len() >= n(1) as usize {
                    std::thread::sleep(Duration::from_millis(20));
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        },
        "unlink" => {
            std::fs::remove_file(format!("{}/{}", dir, s(1))).ok();
        }
        "touch" => {
            std::fs::write(format!("{}/{}", dir, s(1)), b"").expect("touch");
        }
        "hang" => loop {
            std::thread::sleep(Duration::from_secs(3600));
        },
        x => panic!("unknown action {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| log(format!("P {}", i).replace('\n', " "))));
    if let Ok(a) = std::env::var("VH_ACTIONS") {
        let acts: J = serde_json::from_str(&a).expect("actions");
        let who = Who { arg: String::new(), seed: String::new(), leader: false };
        for a in acts.as_array().expect("actions") {
            act(&who, a);
        }
        return;
    }
    let args: Vec<Vec<u8>> = std::env::args_os().map(OsString::into_vec).collect();
    let text = |i: usize| args.len().checked_sub(i).and_then(|k| args.get(k)).map_or(String::new(), |b| String::from_utf8_lossy(b).into_owned());
    let who = Who { arg: text(2), seed: text(1), leader: true };
    let shown: Vec<String> = args.iter().map(|b| latin1(b)).collect();
    log(format!("S {} {} {} {}", who.seed.replace(' ', "_"), std::process::id(), now_ns(), serde_json::to_string(&shown).unwrap()));
    let dir = std::env::var("VH_DIR").expect("VH_DIR");
    let scen: J = serde_json::from_slice(&std::fs::read(format!("{}/scen.json", dir)).expect("scen")).expect("scen");
    let index = match scen["order"].as_array() {
        Some(_) => {
            let mine = format!("S {} {} ", who.seed.replace(' ', "_"), std::process::id());
            let log = std::fs::read(format!("{}/log", dir)).expect("log");
            log.split(|b| *b == b'\n').filter(|l| l.starts_with(b"S ")).position(|l| l.starts_with(mine.as_bytes())).expect("own line")
        }
        None => 0,
    };
    let acts = scen["order"].get(index).or(scen["seeds"].get(&who.seed)).unwrap_or(&scen["default"]);
    for a in acts.as_array().expect("actions") {
        act(&who, a);
    }
    who.end();
}
