//! oca-conform: executes scripts of library operations against the oca-rs
//! working tree and writes down what every call returned.  It judges nothing:
//! the observations are handed to the TLA+ trace specifications.
//!
//! stdin: one JSON script per line  {"id": .., "ops": [..]}
//! stdout: one JSON line per script {"id": .., "obs": [..], "bundles": [..]}
mod misc;
mod ops;
mod shared;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

fn main() {
    // the library prints to stdout: keep our stream to ourselves
    let out = {
        use std::os::fd::{AsFd, AsRawFd};
        let own = std::io::stdout().as_fd().try_clone_to_owned().unwrap();
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe { dup2(null.as_raw_fd(), 1) };
        Arc::new(std::fs::File::from(own))
    };
    let out2 = out.clone();
    let secs: u64 = std::env::var("OP_TIMEOUT").ok().and_then(|x| x.parse().ok()).unwrap_or(10);
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if std::env::var("CONFORM_DEBUG").is_ok() {
            eprintln!("{s}");
        }
        ops::LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let progress = Arc::new((AtomicU64::new(0), Mutex::new(Instant::now())));
    let current = Arc::new(Mutex::new(String::new()));
    let (p2, c2) = (progress.clone(), current.clone());
    let worker = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            for line in stdin.lock().lines() {
                let line = match line {
                    Ok(l) => l,
                    Err(_) => break,
                };
                if line.trim().is_empty() {
                    continue;
                }
                let script: serde_json::Value = match serde_json::from_str(&line) {
                    Ok(v) => v,
                    Err(e) => {
                        eprintln!("bad script: {e}");
                        std::process::exit(2);
                    }
                };
                let id = script["id"].clone();
                let tick = |i: usize| {
                    *c2.lock().unwrap() = serde_json::json!({"id": id, "op": i}).to_string();
                    *p2.1.lock().unwrap() = Instant::now();
                    p2.0.fetch_add(1, Ordering::SeqCst);
                };
                let res = ops::run_script(&script, &tick);
                let mut so: &std::fs::File = &out2;
                so.write_all(format!("{res}\n").as_bytes()).unwrap();
            }
            std::process::exit(0);
        })
        .unwrap();
    loop {
        std::thread::sleep(Duration::from_millis(100));
        if worker.is_finished() {
            // the worker only returns by exiting: this is a panic of the harness itself
            eprintln!("harness panic");
            std::process::exit(3);
        }
        let since = progress.1.lock().unwrap().elapsed();
        if progress.0.load(Ordering::SeqCst) > 0 && since > Duration::from_secs(secs) {
            let c = current.lock().unwrap().clone();
            let mut so: &std::fs::File = &out;
            let _ = so.write_all(format!("{{\"hang\":{c}}}\n").as_bytes());
            std::process::exit(7);
        }
    }
}
