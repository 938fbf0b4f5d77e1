mod fw;
mod gen;
mod io;
mod store;
mod sys;
mod props;

use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).cloned().unwrap_or_default();
    let scratch = PathBuf::from(arg(&args, "--scratch").expect("--scratch DIR"));
    assert!(scratch.is_absolute() && scratch.is_dir(), "scratch must be an existing absolute directory");
    match mode.as_str() {
        "run" => {
            let prop = arg(&args, "--prop").expect("--prop");
            let mut out = std::fs::File::create(arg(&args, "--result").expect("--result")).expect("result file");
            if let Err(e) = fw::drop_privileges(&scratch) {
                eprintln!("harness error: {}", e);
                std::process::exit(2);
            }
            fw::install_panic_hook();
            let rc = fw::RunCtx {
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
                scratch,
                prop: prop.clone(),
                scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            let only = arg(&args, "--sub");
            let mut subs: Vec<Value> = vec![];
            let mut bad = false;
            for s in props::subs(&prop) {
                if only.as_ref().map_or(false, |o| o != s.name) {
                    continue;
                }
                let r = (s.run)(&rc);
                bad |= !r["failure"].is_null();
                subs.push(r);
                if bad {
                    break;
                }
            }
            let v = json!({"prop": prop, "config": props::CONFIG, "subs": subs});
            out.write_all(serde_json::to_string(&v).unwrap().as_bytes()).expect("result");
        }
        "replay" => {
            // Replay file: {"property", "config", "sub", "case"}; exit 0 held, 1 violated.
            let text = std::fs::read_to_string(arg(&args, "--file").expect("--file")).expect("replay file");
            let v: Value = serde_json::from_str(&text).expect("replay JSON");
            if let Err(e) = fw::drop_privileges(&scratch) {
                eprintln!("harness error: {}", e);
                std::process::exit(2);
            }
            fw::install_panic_hook();
            fw::REPLAYING.store(true, std::sync::atomic::Ordering::Relaxed);
            let prop = v["property"].as_str().unwrap().to_string();
            for s in props::subs(&prop) {
                if v["sub"] == s.name {
                    // Same stack size as the search threads.
                    let case = v["case"].clone();
                    let r = std::thread::scope(|sc| {
                        std::thread::Builder::new().stack_size(64 << 20)
                            .spawn_scoped(sc, || {
                                let replay = std::panic::AssertUnwindSafe(&s);
                                (replay.replay)(&case, &scratch)
                            }).unwrap().join()
                    });
                    match r {
                        Ok(Ok(())) => { println!("held"); std::process::exit(0) }
                        Ok(Err(m)) => { println!("violated: {}", m); std::process::exit(1) }
                        Err(_) => { println!("violated: panic"); std::process::exit(1) }
                    }
                }
            }
            eprintln!("no such sub-check");
            std::process::exit(2);
        }
        _ => {
            eprintln!("usage: zck run|replay ...");
            std::process::exit(2);
        }
    }
}
