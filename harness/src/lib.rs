//! Executable contracts of the real code: shared machinery.
pub mod ctx;
pub mod httpd;
pub mod readers;
pub mod spec;

use ctx::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub type Explore = fn(&str, &mut Ctx);
pub type Replay = fn(&str, &str, &serde_json::Value, &std::path::Path) -> Result<(), String>;

/// BIN explore PROP SEED TIER SECONDS SCRATCH OUT.json
/// BIN replay FILE SCRATCH
pub fn run(explore: Explore, replay: Replay) {
    let args: Vec<String> = std::env::args().collect();
    let scratch = PathBuf::from(match args[1].as_str() {
        "explore" => &args[6],
        _ => &args[3],
    });
    std::fs::create_dir_all(&scratch).unwrap();
    // Everything the code under test writes goes below the scratch directory.
    std::env::set_var("XDG_CACHE_HOME", scratch.join("cache"));
    std::env::set_var("HOME", &scratch);
    std::env::remove_var("http_proxy");
    std::env::remove_var("HTTP_PROXY");
    std::panic::set_hook(Box::new(|_| {}));
    let status = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || match args[1].as_str() {
            "explore" => {
                let prop = &args[2];
                let out = PathBuf::from(&args[7]);
                let cur = out.with_extension("current");
                let mut ctx = Ctx::new(
                    args[3].parse().unwrap(),
                    args[4] == "thorough",
                    Duration::from_secs(args[5].parse().unwrap()),
                    cur.clone(),
                    scratch.clone(),
                );
                watchdog(cur);
                let start = Instant::now();
                explore(prop, &mut ctx);
                let res = serde_json::json!({
                    "property": prop, "evaluations": ctx.evaluations, "distinct_nontrivial": ctx.nontrivial,
                    "per_kind": ctx.per_kind, "samples": ctx.samples, "failure": ctx.failure,
                    "wall_s": start.elapsed().as_secs_f64(),
                });
                std::fs::write(&out, serde_json::to_vec_pretty(&res).unwrap()).unwrap();
                0
            }
            "replay" => {
                let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
                let prop = v["property"].as_str().unwrap().to_string();
                let kind = v["kind"].as_str().unwrap().to_string();
                let case = v["case"].clone();
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay(&prop, &kind, &case, &scratch))) {
                    Ok(Ok(())) => {
                        println!("{}: the case passes", prop);
                        0
                    }
                    Ok(Err(m)) => {
                        println!("{}: {}", prop, m);
                        1
                    }
                    Err(p) => {
                        println!("{}: panic: {}", prop, panic_text(&p));
                        1
                    }
                }
            }
            x => panic!("unknown command {}", x),
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(status)
}
