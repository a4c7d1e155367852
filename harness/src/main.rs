mod bytes;
mod conv;
mod crypto;
mod lex;
mod mal;
mod mock;
mod val;
mod wire;

use {
    serde_json::{json, Value as J},
    std::{
        io::{BufRead, Write},
        panic::AssertUnwindSafe,
        sync::Mutex,
    },
};

#[global_allocator]
static ALLOCATOR: mal::Counting = mal::Counting;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// usage: vh <mode> <scenarios.jsonl> <progress file> [skip] -> one JSON line per failure, then one with totals
fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{msg} at {at}");
    }));
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].as_str();
    let file = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("HARNESS: scenario file"));
    let mut progress = std::fs::File::create(&args[3]).expect("HARNESS: progress file");
    let skip: usize = args.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let out = std::io::stdout();
    let mut out = out.lock();
    let (mut n, mut calls, mut failures) = (0usize, 0usize, 0usize);
    // what is recorded, for those modes that record
    let mut records = (mode == "lex").then(|| (std::io::BufWriter::new(std::fs::File::create(format!("{}.rec", args[2])).expect("HARNESS: records")), "["));
    for (i, line) in file.lines().enumerate() {
        let line = line.expect("HARNESS: read");
        if i < skip || line.is_empty() || (mode == "tcp" && failures >= 5) {
            continue;
        }
        // which scenario is under way, if this process dies
        use std::io::Seek;
        progress.rewind().unwrap();
        write!(progress, "{i:>12}\n").unwrap();
        let mut sc: J = serde_json::from_str(&line).expect("HARNESS: json");
        if sc["frag"].is_null() {
            // how the transport cuts: any, but the same for the same scenario
            let h = line.bytes().fold(0xcbf29ce484222325u64 ^ seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            sc["frag"] = J::from(h >> 20);
        }
        let res = std::panic::catch_unwind(AssertUnwindSafe(|| match mode {
            "wire" => match sc["keep"].as_u64() {
                None => wire::replay(&sc),
                Some(keep) => {
                    let before = mal::larger(keep as usize).len();
                    let (mut errors, calls) = wire::replay(&sc);
                    let after = mal::larger(keep as usize);
                    if after.len() > before {
                        errors.push(format!("memory of {after:?} bytes was kept, which is more than {keep}"));
                    }
                    (errors, calls)
                }
            },
            "tcp" => wire::replay_tcp(&sc),
            "mal" => mal::replay(&sc),
            "conv" => conv::replay(&sc),
            "lex" => {
                let r = lex::record(&sc);
                let (w, sep) = records.as_mut().unwrap();
                write!(w, "{sep}{r}").unwrap();
                *sep = ",\n";
                (vec![], 1)
            }
            x => panic!("HARNESS: mode {x}"),
        }));
        n += 1;
        let errors = match res {
            Ok((e, c)) => {
                calls += c;
                e
            }
            Err(_) => {
                let msg = LAST_PANIC.lock().unwrap().clone();
                if msg.contains("HARNESS:") {
                    eprintln!("scenario {i}: {msg}");
                    std::process::exit(3);
                }
                vec![format!("panic: {msg}")]
            }
        };
        if !errors.is_empty() {
            failures += 1;
            if failures <= 200 {
                writeln!(out, "{}", json!({"i": i, "errors": errors})).unwrap();
            }
        }
    }
    if let Some((w, sep)) = &mut records {
        write!(w, "{}]", if *sep == "[" { "[" } else { "" }).unwrap();
        w.flush().unwrap();
    }
    writeln!(out, "{}", json!({"total": n, "calls": calls, "failures": failures})).unwrap();
}
