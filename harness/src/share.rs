//! Real threads on one shared sampler.  Events are appended under one log lock;
//! the probe's events are emitted while the shared sampler's own lock is held.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use llm_samplers::prelude::*;
use rand::SeedableRng;
use serde_json::{json, Map, Value};

use crate::lists::*;
use crate::obj::*;
use crate::Events;

thread_local!(static TH: Cell<i32> = const { Cell::new(-1) });
// whether this thread's current run has let the next one of the schedule go
thread_local!(static PASSED: Cell<bool> = const { Cell::new(true) });

/// The order in which runs begin.  A run lets the next one go as soon as it has
/// executed the shared sampler, before it has returned.
#[derive(Debug, Default)]
struct Turns {
    sched: Vec<i32>,
    turn: AtomicUsize,
}

impl Turns {
    fn wait(&self, th: i32) {
        if self.sched.is_empty() {
            return;
        }
        let t0 = std::time::Instant::now();
        loop {
            let n = self.turn.load(Ordering::SeqCst);
            if self.sched.get(n).map_or(true, |t| *t == th) || t0.elapsed().as_millis() > 2000 {
                break;
            }
            std::hint::spin_loop();
            if t0.elapsed().as_micros() > 200 {
                std::thread::yield_now();
            }
        }
        PASSED.with(|p| p.set(false));
    }
    fn pass(&self, linger: bool) {
        if self.sched.is_empty() || PASSED.with(|p| p.replace(true)) {
            return;
        }
        self.turn.fetch_add(1, Ordering::SeqCst);
        if linger {
            // time for the next one to arrive at the lock
            let t0 = std::time::Instant::now();
            while t0.elapsed().as_micros() < 40 {
                std::hint::spin_loop();
            }
        }
    }
}

/// Reports a token nobody else ever reports; panics or fails when told to.
#[derive(Debug)]
struct Probe {
    next: AtomicU32,
    tok: Option<u32>,
    busy: AtomicBool,
    log: Events,
    panic_at: i64,
    fail_every: u32,
    fail_at: i64,
    spin: u32,
    turns: Arc<Turns>,
}

impl Sampler for Probe {
    fn sample<'a>(
        &mut self,
        _res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> anyhow::Result<&'a mut Logits, SamplerError> {
        let th = TH.with(Cell::get);
        let overlap = self.busy.swap(true, Ordering::SeqCst);
        self.tok = None;
        let n = self.next.fetch_add(1, Ordering::SeqCst);
        for _ in 0..self.spin {
            std::hint::spin_loop();
        }
        if self.spin > 0 && n % 7 == 0 {
            std::thread::yield_now();
        }
        let fails = i64::from(n) == self.fail_at
            || self.fail_every > 0 && n % self.fail_every == self.fail_every - 1;
        let panics = i64::from(n) == self.panic_at;
        let how = if panics {
            "panic"
        } else if fails {
            "fail"
        } else {
            "pick"
        };
        self.log.lock().unwrap().push(json!({
            "e": "exec", "th": th, "how": how, "overlap": overlap,
            "tok": if how == "pick" { json!([n as i32]) } else { json!([]) }}));
        self.turns.pass(true);
        if panics {
            self.busy.store(false, Ordering::SeqCst);
            panic!("probe panic");
        }
        self.busy.store(false, Ordering::SeqCst);
        if fails {
            Err(SamplerError::InternalError("probe failure".into()))?
        }
        self.tok = Some(n);
        Ok(logits)
    }

    fn sampled_token_id(&self) -> Option<TID> {
        self.tok
    }

    fn sample_prepend(&self, _res: &mut dyn HasSamplerResources) {
        let th = TH.with(Cell::get);
        self.log.lock().unwrap().push(json!({"e": "hooked", "th": th}));
        self.turns.pass(true);
    }
}

/// A handle to the shared sampler that, asked to run without reporting its
/// token, lets other threads run it before returning.  Whoever asks for the
/// token separately afterwards can get another thread's.
#[derive(Debug)]
struct Gate {
    shared: Arc<Mutex<dyn Sampler>>,
    log: Events,
    waits: u32,
}

impl Sampler for Gate {
    fn sample<'a>(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> anyhow::Result<&'a mut Logits, SamplerError> {
        let th = TH.with(Cell::get);
        let r = self.shared.sample(res, logits);
        if self.waits > 0 {
            self.waits -= 1;
            let others = |log: &Events| {
                log.lock()
                    .unwrap()
                    .iter()
                    .filter(|e| e["e"] == "exec" && e["th"] != th)
                    .count()
            };
            let (from, t0) = (others(&self.log), std::time::Instant::now());
            while others(&self.log) == from && t0.elapsed().as_millis() < 60 {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }
        r
    }

    fn sampled_token_id(&self) -> Option<TID> {
        self.shared.sampled_token_id()
    }

    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.shared.sample_prepend(res)
    }

    fn sample_token(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &mut Logits,
    ) -> anyhow::Result<Option<TID>, SamplerError> {
        self.shared.sample_token(res, logits)
    }
}

/// Reads the token or invokes the hook through a thread's own handle or chain.
fn ask(what: &str, own: &dyn Sampler, res: &mut SimpleSamplerResources, log: &Events, th: usize, route: &str) {
    let put = |v: Value| log.lock().unwrap_or_else(|e| e.into_inner()).push(v);
    put(json!({"e": "ask", "th": th}));
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        "tok" => own.sampled_token_id(),
        _ => {
            own.sample_prepend(res);
            None
        }
    }));
    put(json!({
        "e": what, "th": th, "route": route,
        "out": if r.is_ok() { "ok" } else { "panic" },
        "ret": topt(r.unwrap_or(None))}));
}

pub fn run(op: &Value, e: &mut Map<String, Value>) {
    let routes: Vec<String> = op["routes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r.as_str().unwrap().to_string())
        .collect();
    let runs = op["runs"].as_u64().unwrap();
    // threads also read the token and invoke the hook between their runs
    let uses = op["uses"].as_u64().unwrap_or(0);
    let log: Events = Default::default();
    let turns = Arc::new(Turns {
        sched: op["sched"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_i64().unwrap() as i32).collect())
            .unwrap_or_default(),
        turn: AtomicUsize::new(0),
    });
    let probe = op["cfg"]["k"].as_str() == Some("probe");
    let shared: Arc<Mutex<dyn Sampler>> = if probe {
        Arc::new(Mutex::new(Probe {
            next: AtomicU32::new(0),
            tok: None,
            busy: AtomicBool::new(false),
            log: log.clone(),
            panic_at: op["panic_at"].as_i64().unwrap_or(-1),
            fail_at: op["fail_at"].as_i64().unwrap_or(-1),
            fail_every: op["fail_every"].as_u64().unwrap_or(0) as u32,
            spin: op["spin"].as_u64().unwrap_or(0) as u32,
            turns: turns.clone(),
        }))
    } else {
        Conc::make(&op["cfg"], &log).into_arc()
    };
    let barrier = Arc::new(Barrier::new(routes.len()));
    let mut handles = vec![];
    for (th, route) in routes.iter().enumerate() {
        let (route, log, barrier, shared, turns) =
            (route.clone(), log.clone(), barrier.clone(), shared.clone(), turns.clone());
        handles.push(std::thread::spawn(move || {
            TH.with(|t| t.set(th as i32));
            let mut own: Box<dyn Sampler> = match route.as_str() {
                "direct" | "hook" | "tok" | "hold" => Box::new(shared.clone()),
                "box" => Box::new(Box::new(shared.clone()) as Box<dyn Sampler>),
                "chain" => Box::new(SamplerChain::new() + shared.clone()),
                "topk" => Box::new(SamplerChain::new() + SampleTopK::new(3, 1) + shared.clone()),
                "gate" | "gatechain" => {
                    let g = Gate {
                        shared: shared.clone(),
                        log: log.clone(),
                        waits: 3,
                    };
                    if route == "gate" {
                        Box::new(g)
                    } else {
                        Box::new(SamplerChain::new() + SampleTemperature::new(2.0) + g)
                    }
                }
                "nested" => {
                    Box::new(SamplerChain::new() + (SamplerChain::new() + shared.clone()))
                }
                "twice" => Box::new(SamplerChain::new() + shared.clone() + shared.clone()),
                "nest2" => Box::new(
                    SamplerChain::new()
                        + SampleTemperature::new(2.0)
                        + (Box::new(SamplerChain::new() + shared.clone()) as Box<dyn Sampler>),
                ),
                r => panic!("route {r}"),
            };
            // token ids of this thread's lists: disjoint between threads
            let base = 1000 * (th as u32 + 1);
            let mut res = SimpleSamplerResources::new(
                Some(Box::new(rand::rngs::StdRng::seed_from_u64(th as u64))),
                Some(vec![]),
            );
            barrier.wait();
            for i in 0..runs {
                let mut l = Logits::default();
                for j in 0..4u32 {
                    l.push(Logit {
                        token_id: base + j,
                        logit: ((i as u32 + j) % 4) as f32,
                        prob: 0.0,
                    });
                }
                turns.wait(th as i32);
                match route.as_str() {
                    "hold" => {
                        // somebody simply keeps the lock for a while
                        let g = shared.lock();
                        std::thread::sleep(std::time::Duration::from_micros(300));
                        drop(g);
                        continue;
                    }
                    "hook" | "tok" => {
                        ask(&route, &*own, &mut res, &log, th, &route);
                        turns.pass(false);
                        continue;
                    }
                    _ => (),
                }
                let r = catch_unwind(AssertUnwindSafe(|| own.sample_token(&mut res, &mut l)));
                let (out, err, ret) = match r {
                    Ok(Ok(t)) => ("ok", String::new(), t),
                    Ok(Err(x)) => ("err", errname(&x), None),
                    Err(_) => ("panic", "panic".to_string(), None),
                };
                log.lock().unwrap_or_else(|e| e.into_inner()).push(json!({
                    "e": "ret", "th": th, "route": route, "out": out, "err": err,
                    "ret": topt(ret), "base": base}));
                turns.pass(false);
                for u in 0..uses {
                    ask(if (u + i) % 2 == 0 { "tok" } else { "hook" }, &*own, &mut res, &log, th, &route);
                }
            }
            // later uses of the handle never panic either
            for what in ["tok", "hook"] {
                ask(what, &*own, &mut res, &log, th, &route);
            }
        }));
    }
    let mut lost = 0;
    for h in handles {
        if h.join().is_err() {
            lost += 1;
        }
    }
    // the shared sampler itself, after everything
    let mut l = Logits::try_from_iter([1.0f32, 2.0]).unwrap();
    let mut direct = shared.clone();
    let mut res = SimpleSamplerResources::new(
        Some(Box::new(rand::rngs::StdRng::seed_from_u64(9))),
        Some(vec![]),
    );
    TH.with(|t| t.set(99));
    let r = catch_unwind(AssertUnwindSafe(|| direct.sample(&mut res, &mut l).map(|_| ())));
    let fin = match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    e.insert("lost".into(), json!(lost));
    e.insert("fin".into(), json!(fin));
    let evs = log.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let _ = dump(&l);
    e.insert("tev".into(), Value::Array(evs));
}
