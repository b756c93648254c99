//! Conformance harness.  Reads one scenario per line (JSON) on stdin, runs its
//! operations against the real crate and writes one recorded trace per line.
mod env;
mod lists;
mod obj;
mod res;
mod share;
mod spy;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

/// Milliseconds since process start at which the current operation began (0 = idle).
pub static OP_START: AtomicU64 = AtomicU64::new(0);

pub type Events = Arc<Mutex<Vec<Value>>>;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let current: Arc<Mutex<Option<(Value, Value, Events)>>> = Arc::new(Mutex::new(None));
    let limit_ms: u64 = std::env::var("HARNESS_OP_MS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(20_000);

    // An operation that does not return is data too: record it and stop.
    {
        let current = current.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let st = OP_START.load(Ordering::SeqCst);
            let now = t0.elapsed().as_millis() as u64 + 1;
            if st != 0 && now > st + limit_ms {
                let cur = current.lock().unwrap();
                if let Some((id, tag, ev)) = cur.as_ref() {
                    let mut ev = ev.lock().unwrap().clone();
                    ev.push(json!({"op": "crash", "out": "hang"}));
                    let line = json!({"id": id, "tag": tag, "ev": ev});
                    let out = std::io::stdout();
                    let mut out = out.lock();
                    let _ = writeln!(out, "{line}");
                    let _ = out.flush();
                }
                std::process::exit(77);
            }
        });
    }

    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario json");
        let events: Events = Default::default();
        *current.lock().unwrap() = Some((sc["id"].clone(), sc["tag"].clone(), events.clone()));
        let mut env = env::Env::new(events.clone());
        for op in sc["ops"].as_array().expect("ops") {
            OP_START.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            env.exec(op);
            OP_START.store(0, Ordering::SeqCst);
        }
        drop(env);
        *current.lock().unwrap() = None;
        let ev = events.lock().unwrap();
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(
            out,
            "{}",
            json!({"id": sc["id"], "tag": sc["tag"], "ev": *ev})
        )
        .expect("stdout");
        out.flush().expect("stdout");
    }
}
