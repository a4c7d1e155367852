//! Replays the scenarios of a file.
use {
    serde_json::{json, Value as J},
    std::{
        io::{BufRead, Seek, Write},
        panic::AssertUnwindSafe,
        sync::Mutex,
    },
};

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// usage: <mode> <scenarios.jsonl> <progress file> [skip] -> one JSON line per failure, then one with totals
pub fn main(replay: impl Fn(&J, u64) -> (Vec<String>, usize)) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{msg} at {at}");
    }));
    let args: Vec<String> = std::env::args().collect();
    let file = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("HARNESS: scenario file"));
    let mut progress = std::fs::File::create(&args[3]).expect("HARNESS: progress file");
    let skip: usize = args.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let out = std::io::stdout();
    let mut out = out.lock();
    let (mut n, mut calls, mut failures) = (0usize, 0usize, 0usize);
    for (i, line) in file.lines().enumerate() {
        let line = line.expect("HARNESS: read");
        if i < skip || line.is_empty() {
            continue;
        }
        progress.rewind().unwrap();
        write!(progress, "{i:>12}\n").unwrap();
        let sc: J = serde_json::from_str(&line).expect("HARNESS: json");
        let h = line.bytes().fold(0xcbf29ce484222325u64 ^ seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let res = std::panic::catch_unwind(AssertUnwindSafe(|| replay(&sc, h >> 20)));
        n += 1;
        let errors = match res {
            Ok((e, c)) => {
                calls += c;
                e
            }
            Err(_) => {
                let msg = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if msg.contains("HARNESS:") {
                    eprintln!("scenario {i}: {msg}");
                    std::process::exit(3);
                }
                vec![format!("panic: {msg}")]
            }
        };
        if !errors.is_empty() {
            failures += 1;
            if failures <= 200 {
                writeln!(out, "{}", json!({"i": i, "errors": errors})).unwrap();
            }
        }
    }
    writeln!(out, "{}", json!({"total": n, "calls": calls, "failures": failures})).unwrap();
}
