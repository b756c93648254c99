//! The interpreter of scenario operations.
use std::borrow::Cow;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use serde_json::{json, Map, Value};

use crate::lists::*;
use crate::obj::*;
use crate::res::Res;
use crate::spy::Spy;
use crate::Events;

type Builder = SamplerChainBuilder<usize, f32>;

struct B {
    b: Builder,
    made: Vec<Arc<AtomicUsize>>,
}

// Scenario threads run strictly one after the other.
struct Unshared(HashMap<String, B>);
unsafe impl Send for Unshared {}

pub struct Env {
    ev: Events,
    log: Events,
    lists: HashMap<String, Logits>,
    res: HashMap<String, Res>,
    sams: HashMap<String, Shared>,
    s8: HashMap<String, Spy<u8, f32>>,
    builders: Unshared,
    thr: bool,
}

fn st<'a>(op: &'a Value, key: &str) -> &'a str {
    op[key].as_str().unwrap_or_else(|| panic!("string {key} in {op}"))
}

fn lk(o: &Shared) -> std::sync::MutexGuard<'_, Obj> {
    o.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn val(v: &SamplerOptionValue) -> Value {
    let t;
    let (mut f, mut d, mut b) = (json!([0, 0]), json!([]), false);
    match v {
        SamplerOptionValue::UInt(x) => {
            t = "u";
            d = chars(&x.to_string());
        }
        SamplerOptionValue::Float(x) => {
            t = "f";
            f = f64pair(*x);
        }
        SamplerOptionValue::Bool(x) => {
            t = "b";
            b = *x;
        }
        SamplerOptionValue::String(x) => {
            t = "s";
            d = chars(x);
        }
    }
    json!({"t": t, "v": f, "d": d, "b": b})
}

pub fn noval() -> Value {
    json!({"t": "none", "v": [0, 0], "d": [], "b": false})
}

pub fn tyname(t: SamplerOptionType) -> &'static str {
    match t {
        SamplerOptionType::UInt => "u",
        SamplerOptionType::Float => "f",
        SamplerOptionType::Bool => "b",
        SamplerOptionType::String => "s",
    }
}

/// The advertised options with the values read through their full names.
pub fn dump_opts<UI, F, S>(s: &S) -> Value
where
    UI: ConfigurableNumValue,
    F: ConfigurableNumValue,
    S: ConfigurableSampler<UI, F> + ?Sized,
{
    Value::Array(
        s.sampler_metadata()
            .options
            .iter()
            .map(|o| {
                let v = match s.get_option(o.key) {
                    Ok(v) => val(&v),
                    Err(_) => noval(),
                };
                json!({"key": chars(o.key), "ty": tyname(o.option_type), "val": v})
            })
            .collect(),
    )
}

fn cfgerr(e: &anyhow::Error) -> &'static str {
    match e.downcast_ref::<ConfigureSamplerError>() {
        Some(ConfigureSamplerError::UnknownOrBadType(_)) => "unknown",
        Some(ConfigureSamplerError::AmbiguousKey(_)) => "ambiguous",
        Some(ConfigureSamplerError::ConversionFailure(_)) => "conversion",
        Some(ConfigureSamplerError::CannotAccessOptionValue(_)) => "access",
        None => match e.downcast_ref::<BuildSamplersError>() {
            Some(BuildSamplersError::UnknownSlot(_)) => "slot",
            Some(BuildSamplersError::CannotConfigureStatic(_)) => "static",
            Some(BuildSamplersError::ConfigureFailed { .. }) => "configure",
            None => "other",
        },
    }
}

/// What an error says, from the outside in: kind, name it carries, text.
fn why(e: &anyhow::Error) -> Vec<Value> {
    let name = match e.downcast_ref::<ConfigureSamplerError>() {
        Some(
            ConfigureSamplerError::UnknownOrBadType(n)
            | ConfigureSamplerError::AmbiguousKey(n)
            | ConfigureSamplerError::ConversionFailure(n)
            | ConfigureSamplerError::CannotAccessOptionValue(n),
        ) => n.as_str(),
        None => match e.downcast_ref::<BuildSamplersError>() {
            Some(BuildSamplersError::UnknownSlot(n) | BuildSamplersError::CannotConfigureStatic(n)) => n,
            Some(BuildSamplersError::ConfigureFailed { name, .. }) => name,
            None => "",
        },
    };
    let mut out = vec![json!({"k": cfgerr(e), "n": chars(name), "t": chars(&e.to_string())})];
    if let Some(BuildSamplersError::ConfigureFailed { err, .. }) = e.downcast_ref() {
        out.extend(why(err));
    }
    out
}

/// An error in full.
pub fn full(e: &SamplerError) -> String {
    format!("{e:?}")
}

fn raw_err(r: &std::thread::Result<Result<Option<u32>, SamplerError>>) -> String {
    match r {
        Ok(Err(x)) => full(x),
        _ => String::new(),
    }
}

fn outcome(
    r: std::thread::Result<Result<Option<u32>, SamplerError>>,
) -> (&'static str, String, Option<u32>) {
    match r {
        Ok(Ok(t)) => ("ok", String::new(), t),
        Ok(Err(x)) => ("err", errname(&x), None),
        Err(_) => ("panic", "panic".into(), None),
    }
}

/// All that one run of a sampler shows.
#[derive(PartialEq)]
struct Once {
    out: &'static str,
    err: String,
    ret: Option<u32>,
    tok: Option<u32>,
    mu0: Option<i32>,
    mu: Option<i32>,
    so: bool,
    sm: bool,
    hist: Option<Vec<u32>>,
    draws: u64,
    post: Vec<(i32, i32, i32)>,
}

/// A sampler behind a plain reference, for the list's convenience methods.
#[derive(Debug)]
struct Fwd<'a>(&'a mut dyn Sampler);

impl Sampler for Fwd<'_> {
    fn sample<'a>(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> anyhow::Result<&'a mut Logits, SamplerError> {
        self.0.sample(res, logits)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.0.sampled_token_id()
    }
    fn sample_token(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &mut Logits,
    ) -> Result<Option<TID>, SamplerError> {
        self.0.sample_token(res, logits)
    }
}

fn argval(v: &Value) -> SamplerOptionValue<'static> {
    match st(v, "t") {
        "u" => SamplerOptionValue::UInt(st(v, "d").parse().expect("u64")),
        "f" => SamplerOptionValue::Float(pair_f64(&v["v"])),
        "b" => SamplerOptionValue::Bool(v["b"].as_bool().unwrap()),
        "s" => SamplerOptionValue::String(Cow::Owned(st(v, "d").to_string())),
        t => panic!("value type {t}"),
    }
}

fn conf_op<UI, F, S>(s: &mut S, op: &Value, e: &mut Map<String, Value>)
where
    UI: ConfigurableNumValue,
    F: ConfigurableNumValue,
    S: ConfigurableSampler<UI, F> + ?Sized,
{
    e.insert("o0".into(), dump_opts(s));
    let r = match st(op, "op") {
        "set" => {
            e.insert("keyc".into(), chars(st(op, "key")));
            let v = argval(&op["val"]);
            e.insert("val".into(), val(&v));
            s.set_option(st(op, "key"), v)
        }
        "cfg" => {
            e.insert("strc".into(), chars(st(op, "str")));
            s.configure(st(op, "str"))
        }
        "get" => {
            e.insert("keyc".into(), chars(st(op, "key")));
            let (r, v) = match s.get_option(st(op, "key")) {
                Ok(v) => (Ok(()), val(&v)),
                Err(e) => (Err(e), noval()),
            };
            e.insert("val".into(), v);
            r
        }
        _ => unreachable!(),
    };
    e.insert("o1".into(), dump_opts(s));
    match r {
        Ok(()) => {
            e.insert("out".into(), json!("ok"));
            e.insert("err".into(), json!(""));
            e.insert("why".into(), json!([]));
        }
        Err(x) => {
            e.insert("out".into(), json!("err"));
            e.insert("err".into(), json!(cfgerr(&x)));
            e.insert("why".into(), json!(why(&x)));
        }
    }
}

fn md_op(s: &mut Dyn, e: &mut Map<String, Value>) {
    let md = s.sampler_metadata();
    e.insert("name".into(), json!(md.name));
    let ty = |v: Option<&'static str>| json!(v.unwrap_or("none"));
    e.insert(
        "opts".into(),
        Value::Array(
            md.options
                .iter()
                .map(|o| json!({"key": chars(o.key), "ty": tyname(o.option_type)}))
                .collect(),
        ),
    );
    let rd: Vec<Value> = s
        .sampler_options()
        .iter()
        .map(|(m, v)| {
            json!({"key": chars(m.key), "mty": tyname(m.option_type), "ty": ty(v.as_ref().map(|v| match v {
                SamplerOptionValue::UInt(_) => "u",
                SamplerOptionValue::Float(_) => "f",
                SamplerOptionValue::Bool(_) => "b",
                SamplerOptionValue::String(_) => "s",
            }))})
        })
        .collect();
    let wr: Vec<Value> = s
        .sampler_options_mut()
        .iter()
        .map(|(m, v)| {
            json!({"key": chars(m.key), "mty": tyname(m.option_type), "ty": ty(v.as_ref().map(|v| match v {
                SamplerOptionValueMut::UInt(_) => "u",
                SamplerOptionValueMut::Float(_) => "f",
                SamplerOptionValueMut::Bool(_) => "b",
                SamplerOptionValueMut::String(_) => "s",
            }))})
        })
        .collect();
    e.insert("rd".into(), json!(rd));
    e.insert("wr".into(), json!(wr));
    e.insert("out".into(), json!("ok"));
}

fn slots(b: &B) -> Value {
    let one = |s: &Box<Dyn>| json!({"name": s.sampler_metadata().name, "opts": dump_opts(&**s)});
    Value::Array(
        b.b.iter()
            .enumerate()
            .map(|(i, (name, slot))| {
                let (ty, sams) = match slot {
                    SamplerSlot::Static { .. } => ("static", vec![]),
                    SamplerSlot::Single { sampler, .. } => {
                        ("single", sampler.iter().map(one).collect())
                    }
                    SamplerSlot::Chain { samplers, .. } => {
                        ("chain", samplers.iter().map(one).collect())
                    }
                };
                json!({"name": name, "ty": ty, "sams": sams,
                       "made": b.made[i].load(Ordering::SeqCst)})
            })
            .collect(),
    )
}

/// The values through iterators that know more or less about their length.
fn source(v: Vec<f32>, via: &str) -> Box<dyn Iterator<Item = f32>> {
    let mut it = v.clone().into_iter();
    match via {
        // no idea: (0, None)
        "fn" => Box::new(std::iter::from_fn(move || it.next())),
        // (0, Some(usize::MAX))
        "wide" => Box::new((0..usize::MAX).map_while(move |_| it.next())),
        // (0, Some(n))
        "filter" => Box::new(it.filter(|_| true)),
        // (n, None): at least half of them
        _ => {
            let rest: Vec<f32> = it.by_ref().skip(v.len() / 2).collect();
            let first = v[..v.len() / 2].to_vec();
            let mut rest = rest.into_iter();
            Box::new(first.into_iter().chain(std::iter::from_fn(move || rest.next())))
        }
    }
}

impl Env {
    pub fn new(ev: Events) -> Self {
        Self {
            ev,
            log: Default::default(),
            lists: Default::default(),
            res: Default::default(),
            sams: Default::default(),
            s8: Default::default(),
            builders: Unshared(Default::default()),
            thr: false,
        }
    }

    pub fn exec(&mut self, op: &Value) {
        if st(op, "op") == "thr" {
            // the same environment, on another thread
            self.thr = true;
            let me = &mut *self;
            std::thread::scope(|s| {
                s.spawn(move || {
                    for o in op["ops"].as_array().unwrap() {
                        me.exec(o);
                    }
                })
                .join()
                .expect("scenario thread");
            });
            self.thr = false;
            return;
        }
        let mut e = op.as_object().expect("op").clone();
        e.remove("val");
        // strings go to the trace as character sequences only
        for k in ["key", "str"] {
            e.remove(k);
        }
        self.log.lock().unwrap().clear();
        let r = catch_unwind(AssertUnwindSafe(|| self.exec1(op, &mut e)));
        if r.is_err() {
            e.insert("out".into(), json!("panic"));
            e.insert("err".into(), json!("panic"));
            self.after(op, &mut e);
        }
        self.ev.lock().unwrap().push(Value::Object(e));
    }

    /// What is observable after the operation, however it ended.
    fn after(&self, op: &Value, e: &mut Map<String, Value>) {
        if matches!(st(op, "op"), "try" | "many") {
            // the list itself is not touched: only the run on its copy counts
        } else if let Some(l) = op["l"].as_str().and_then(|l| self.lists.get(l)) {
            e.insert("post".into(), dump(l));
            e.insert("so".into(), json!(l.get_sorted()));
            e.insert("sm".into(), json!(l.get_softmax()));
        } else if op.get("l").is_some() {
            e.insert("post".into(), json!([]));
            e.insert("so".into(), json!(false));
            e.insert("sm".into(), json!(false));
        }
        if let Some(r) = op["r"].as_str().and_then(|r| self.res.get(r)) {
            let h = r.history();
            e.insert("hh".into(), json!(h.is_some()));
            e.insert(
                "hist".into(),
                json!(h.unwrap_or_default().iter().map(|t| *t as i32).collect::<Vec<_>>()),
            );
            e.insert("draws".into(), json!(r.draws()));
        }
        if let Some(s) = op["s"].as_str().and_then(|s| self.sams.get(s)) {
            let g = lk(s);
            let tok = catch_unwind(AssertUnwindSafe(|| g.sampled_token_id()));
            match tok {
                Ok(t) => e.insert("tok".into(), topt(t)),
                Err(_) => {
                    e.insert("out".into(), json!("panic"));
                    e.insert("tok".into(), json!([]))
                }
            };
            let mu = mu_of(&g);
            e.insert("hasmu".into(), json!(mu.is_some()));
            e.insert("mu".into(), json!(mu.unwrap_or(0)));
        }
    }

    /// Everything there is to see.
    fn look(&self, e: &mut Map<String, Value>) {
        let lists: Map<_, _> = self
            .lists
            .iter()
            .map(|(n, l)| (n.clone(), json!({"e": dump(l), "so": l.get_sorted(), "sm": l.get_softmax()})))
            .collect();
        let res: Map<_, _> = self
            .res
            .iter()
            .map(|(n, r)| {
                let h = r.history();
                let toks: Vec<i32> = h.iter().flatten().map(|t| *t as i32).collect();
                (n.clone(), json!({"hh": h.is_some(), "hist": toks, "draws": r.draws()}))
            })
            .collect();
        let sams: Map<_, _> = self
            .sams
            .iter()
            .map(|(n, s)| {
                let g = lk(s);
                let mu = mu_of(&g);
                let tab = g.confr().map(dump_opts).unwrap_or(json!([]));
                (n.clone(), json!({"tab": tab, "tok": topt(g.sampled_token_id()), "mu": mu.unwrap_or(0)}))
            })
            .collect();
        e.insert("lists".into(), Value::Object(lists));
        e.insert("res".into(), Value::Object(res));
        e.insert("sams".into(), Value::Object(sams));
    }

    fn lookup(&self, n: &str) -> Shared {
        self.sams.get(n).unwrap_or_else(|| panic!("no sampler {n}")).clone()
    }

    fn list(&mut self, op: &Value) -> &mut Logits {
        let n = st(op, "l");
        self.lists.get_mut(n).unwrap_or_else(|| panic!("no list {n}"))
    }

    fn exec1(&mut self, op: &Value, e: &mut Map<String, Value>) {
        e.insert("out".into(), json!("ok"));
        e.insert("err".into(), json!(""));
        let mut set = |k: &str, v: Value| {
            e.insert(k.into(), v);
        };
        match st(op, "op") {
            "new" | "newk" => {
                let v: Vec<f32> = op["v"].as_array().unwrap().iter().map(f).collect();
                let name = st(op, "l").to_string();
                self.lists.remove(&name);
                let via = op["via"].as_str().unwrap_or("iter");
                let k = (st(op, "op") == "newk").then(|| us(op, "n"));
                let r = match k {
                    None if via == "vec" => Logits::try_from(v),
                    None => match via {
                        "iter" => Logits::try_from_iter(v),
                        _ => Logits::try_from_iter(source(v, via)),
                    },
                    Some(k) => match via {
                        "iter" | "vec" => Logits::try_from_iter_top_k(v, k),
                        _ => Logits::try_from_iter_top_k(source(v, via), k),
                    },
                };
                match r {
                    Ok(l) => {
                        self.lists.insert(name, l);
                        set("at", json!(-1));
                    }
                    Err(x) => {
                        set("out", json!("err"));
                        set(
                            "at",
                            match x {
                                LogitsError::InvalidLogit(i) => json!(i),
                                LogitsError::InternalError(_) => json!(-2),
                            },
                        );
                    }
                }
            }
            "raw" => {
                let l = raw(
                    &op["e"],
                    op["fso"].as_bool().unwrap(),
                    op["fsm"].as_bool().unwrap(),
                );
                self.lists.insert(st(op, "l").into(), l);
            }
            "cp" => {
                let l = self.lists[st(op, "from")].clone();
                self.lists.insert(st(op, "l").into(), l);
            }
            "sort" => {
                if self.list(op).ensure_sorted().is_err() {
                    set("out", json!("err"));
                }
            }
            "soft" => {
                if self.list(op).ensure_softmax().is_err() {
                    set("out", json!("err"));
                }
            }
            "res" => {
                let r = Res::new(op);
                set("sick", json!(r.sick()));
                self.res.insert(st(op, "r").into(), r);
            }
            "push" => {
                let toks: Vec<u32> = op["toks"].as_array().unwrap().iter().map(tid).collect();
                let r = self.res.get_mut(st(op, "r")).unwrap();
                if r.dynm()
                    .with_last_tokens_mut(&mut |t| t.extend(toks.iter().copied()))
                    .is_err()
                {
                    set("out", json!("err"));
                }
            }
            "acc" => {
                let r = self.res.get_mut(st(op, "r")).unwrap();
                let mut calls = 0u32;
                let mut seen: Vec<i32> = vec![];
                let out = match st(op, "which") {
                    "rng" => r.dynm().with_rng_mut(&mut |g| {
                        calls += 1;
                        let _ = g.next_u32();
                    }),
                    "lt" => r.dynr().with_last_tokens(&mut |t| {
                        calls += 1;
                        seen = t.iter().map(|x| *x as i32).collect();
                    }),
                    _ => r.dynm().with_last_tokens_mut(&mut |t| {
                        calls += 1;
                        seen = t.iter().map(|x| *x as i32).collect();
                        t.push(77);
                    }),
                };
                set("calls", json!(calls));
                set("seen", json!(seen));
                if let Err(x) = out {
                    set("out", json!("err"));
                    set("err", json!(errname(&x)));
                }
            }
            "mk" => {
                let sams = self.sams.clone();
                let look = move |n: &str| sams[n].clone();
                let o = make(&op["cfg"], &self.log, &look);
                self.sams.insert(st(op, "s").into(), Arc::new(Mutex::new(o)));
            }
            "mk8" => {
                self.s8
                    .insert(st(op, "s").into(), Spy::new(&op["cfg"], self.log.clone()));
            }
            "clone" => {
                let c = match &*lk(&self.lookup(st(op, "from"))) {
                    Obj::C(c) => Obj::C(c.clone()),
                    _ => panic!("clone of a sampler that is not Clone"),
                };
                self.sams.insert(st(op, "s").into(), Arc::new(Mutex::new(c)));
            }
            "addto" => {
                // push a further member onto an existing chain
                let sams = self.sams.clone();
                let look = move |n: &str| sams[n].clone();
                let o = self.lookup(st(op, "s"));
                let mut g = lk(&o);
                match &mut *g {
                    Obj::Chain(c) => add_member(
                        c,
                        &op["m"],
                        op["how"].as_str().unwrap_or("push"),
                        &self.log,
                        &look,
                    ),
                    _ => panic!("not a chain"),
                }
            }
            "run" => {
                let o = self.lookup(st(op, "s"));
                let mut g = lk(&o);
                let mut nil = NilSamplerResources::new();
                let log = self.log.clone();
                let l = self.lists.get_mut(st(op, "l")).expect("list");
                let res: &mut dyn HasSamplerResources = match op["r"].as_str() {
                    Some(r) => self.res.get_mut(r).expect("res").dynm(),
                    None => &mut nil,
                };
                let r = catch_unwind(AssertUnwindSafe(|| match op["m"].as_str().unwrap_or("t") {
                    "s" => g.s().sample(res, l).map(|_| None),
                    "ls" => l.sample(res, &mut Fwd(g.s())).map(|_| None),
                    "lt" => l.sample_token(res, &mut Fwd(g.s())),
                    _ => g.s().sample_token(res, l),
                }));
                set("steps", json!([]));
                set("raw", json!(raw_err(&r)));
                let (out, err, ret) = outcome(r);
                drop(g);
                set("out", json!(out));
                set("err", json!(err));
                set("ret", topt(ret));
                set("steps", Value::Array(log.lock().unwrap().drain(..).collect()));
            }
            "try" => {
                // a sampler of its own on a copy of the list
                let mut o = Obj::C(Conc::make(&op["cfg"], &self.log));
                let mut l = self.lists.get(st(op, "l")).expect("list").clone();
                let mu0 = mu_of(&o);
                let mut nil = NilSamplerResources::new();
                let res: &mut dyn HasSamplerResources = match op["r"].as_str() {
                    Some(r) => self.res.get_mut(r).expect("res").dynm(),
                    None => &mut nil,
                };
                let r = catch_unwind(AssertUnwindSafe(|| match op["m"].as_str().unwrap_or("t") {
                    "s" => o.s().sample(res, &mut l).map(|_| None),
                    "ls" => l.sample(res, &mut Fwd(o.s())).map(|_| None),
                    "lt" => l.sample_token(res, &mut Fwd(o.s())),
                    _ => o.s().sample_token(res, &mut l),
                }));
                let (mut out, err, ret) = outcome(r);
                let tok = catch_unwind(AssertUnwindSafe(|| o.sampled_token_id())).unwrap_or_else(|_| {
                    out = "panic";
                    None
                });
                set("out", json!(out));
                set("err", json!(err));
                set("ret", topt(ret));
                set("tok", topt(tok));
                set("mu0", json!(mu0.unwrap_or(0)));
                set("mu", json!(mu_of(&o).unwrap_or(0)));
                set("hasmu", json!(mu0.is_some()));
                set("post", dump(&l));
                set("so", json!(l.get_sorted()));
                set("sm", json!(l.get_softmax()));
            }
            "many" => {
                // the same run many times over, each on a copy of the list and
                // with resources of its own, by a sampler of its own or by one
                // sampler throughout ("keep"): every outcome that occurs
                let n = op["n"].as_u64().unwrap();
                let keep = op["keep"] == true;
                let base = self.lists.get(st(op, "l")).expect("list").clone();
                let mode = op["m"].as_str().unwrap_or("t");
                let mut kept = Obj::C(Conc::make(&op["cfg"], &self.log));
                // once, at first, on another list and after another history
                if let Some(other) = op["l2"].as_str().map(|x| self.lists.get(x).expect("list").clone()) {
                    let mut o2 = op.clone();
                    o2["hist"] = op["hist2"].clone();
                    let s = Obj::s(&mut kept);
                    let _ = catch_unwind(AssertUnwindSafe(|| s.sample_token(Res::new(&o2).dynm(), &mut other.clone()).ok()));
                }
                let mut seen: Vec<(Once, u64)> = vec![];
                for i in 0..n {
                    let mut l = base.clone();
                    let mut r = Res::new(op);
                    if !keep {
                        kept = Obj::C(Conc::make(&op["cfg"], &self.log));
                    }
                    let mu0 = mu_of(&kept);
                    let o = kept.s();
                    let res = catch_unwind(AssertUnwindSafe(|| match mode {
                        "s" => o.sample(r.dynm(), &mut l).map(|_| None),
                        "ls" => l.sample(r.dynm(), &mut Fwd(o)).map(|_| None),
                        "lt" => l.sample_token(r.dynm(), &mut Fwd(o)),
                        _ => o.sample_token(r.dynm(), &mut l),
                    }));
                    let (mut out, err, ret) = outcome(res);
                    let tok = catch_unwind(AssertUnwindSafe(|| kept.sampled_token_id())).unwrap_or_else(|_| {
                        out = "panic";
                        None
                    });
                    let once = Once {
                        out,
                        err,
                        ret,
                        tok,
                        mu0,
                        mu: mu_of(&kept),
                        so: l.get_sorted(),
                        sm: l.get_softmax(),
                        hist: r.history(),
                        draws: r.draws(),
                        post: l.iter().map(|x| (x.token_id as i32, fbits(x.logit), fbits(x.prob))).collect(),
                    };
                    if seen.len() < 4 && !seen.iter().any(|(o, _)| *o == once) {
                        seen.push((once, i));
                    }
                }
                let outs = seen
                    .iter()
                    .map(|(o, i)| {
                        json!({
                            "out": o.out, "err": o.err, "ret": topt(o.ret), "tok": topt(o.tok),
                            "mu0": o.mu0.unwrap_or(0), "mu": o.mu.unwrap_or(0), "hasmu": o.mu0.is_some(),
                            "so": o.so, "sm": o.sm,
                            "hist": o.hist.iter().flatten().map(|t| *t as i32).collect::<Vec<_>>(),
                            "draws": o.draws, "at": i,
                            "post": o.post.iter().map(|x| json!([x.0, x.1, x.2])).collect::<Vec<_>>(),
                        })
                    })
                    .collect();
                set("outs", Value::Array(outs));
            }
            "seq" => {
                // the named samplers one after the other, stopping at the first error
                let mut nil = NilSamplerResources::new();
                let mut hs: Vec<Handle> = op["ss"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| Handle {
                        name: n.as_str().unwrap().to_string(),
                        inner: self.lookup(n.as_str().unwrap()),
                        log: self.log.clone(),
                    })
                    .collect();
                let log = self.log.clone();
                let l = self.lists.get_mut(st(op, "l")).expect("list");
                let res: &mut dyn HasSamplerResources = match op["r"].as_str() {
                    Some(r) => self.res.get_mut(r).expect("res").dynm(),
                    None => &mut nil,
                };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut t = None;
                    for h in hs.iter_mut() {
                        t = h.sample_token(res, l)?;
                    }
                    Ok::<_, SamplerError>(t)
                }));
                set("steps", json!([]));
                set("raw", json!(raw_err(&r)));
                let (out, err, ret) = outcome(r);
                set("out", json!(out));
                set("err", json!(err));
                set("ret", topt(ret));
                set("tok", topt(ret));
                set("steps", Value::Array(log.lock().unwrap().drain(..).collect()));
            }
            "hook" => {
                let o = self.lookup(st(op, "s"));
                let g = lk(&o);
                let r = self.res.get_mut(st(op, "r")).expect("res");
                g.sr().sample_prepend(r.dynm());
                let v = self.log.lock().unwrap().drain(..).collect();
                set("hooks", Value::Array(v));
            }
            "peek" => {
                let r = self.res.get_mut(st(op, "r")).unwrap();
                let mut w = 0u32;
                if r.dynm().with_rng_mut(&mut |g| w = g.next_u32()).is_err() {
                    set("out", json!("err"));
                }
                set("word", json!(w as i32));
            }
            "dist" => {
                // n draws, each from a copy of the list and by a sampler of its
                // own, or by one sampler ("keep") and from one list ("one"),
                // or by one sampler from two lists in turn ("e2")
                let n = op["n"].as_u64().unwrap();
                let base = raw(&op["e"], op["fso"].as_bool().unwrap(), op["fsm"].as_bool().unwrap());
                let other = op.get("e2").map(|x| raw(x, false, false));
                let (keep, one) = (op["keep"] == true, op["one"] == true);
                let mut r = Res::new(op);
                type Tally = std::collections::HashMap<i64, u64>;
                let (mut counts, mut counts2) = (Tally::new(), Tally::new());
                let (mut none, mut errs, mut again) = (0u64, 0u64, 0u64);
                let mut prev = None;
                let mut first = Value::Null;
                let mut s = Obj::C(Conc::make(&op["cfg"], &self.log));
                let mut l = base.clone();
                for _ in 0..n {
                    if !keep {
                        s = Obj::C(Conc::make(&op["cfg"], &self.log));
                    }
                    if !one {
                        l = base.clone();
                    }
                    match Obj::s(&mut s).sample_token(r.dynm(), &mut l) {
                        Ok(Some(t)) => {
                            *counts.entry(i64::from(t as i32)).or_default() += 1;
                            again += u64::from(prev == Some(t));
                            prev = Some(t);
                        }
                        Ok(None) => none += 1,
                        Err(_) => errs += 1,
                    }
                    if let Some(o) = &other {
                        match Obj::s(&mut s).sample_token(r.dynm(), &mut o.clone()) {
                            Ok(Some(t)) => *counts2.entry(i64::from(t as i32)).or_default() += 1,
                            Ok(None) => none += 1,
                            Err(_) => errs += 1,
                        }
                    }
                    if first.is_null() {
                        first = dump(&l);
                    }
                }
                let tally = |m: &Tally, e: &Value| {
                    let a = e.as_array().map(Vec::as_slice).unwrap_or(&[]);
                    Value::Array(
                        a.iter()
                            .map(|x| json!(m.get(&x[0].as_i64().unwrap()).copied().unwrap_or(0)))
                            .collect(),
                    )
                };
                // the counts in the order of the list drawn from, and of what
                // the first run left of it
                set("tallypre", tally(&counts, &op["e"]));
                set("tallyfirst", tally(&counts, &first));
                set("pre", op["e"].clone());
                set("first", first);
                set("again", json!(again));
                if let Some(x) = op.get("e2") {
                    set("pre2", x.clone());
                    set("tally2", tally(&counts2, x));
                }
                let mut all: Vec<_> = counts.iter().map(|(t, c)| json!([t, c])).collect();
                all.sort_by_key(|x| x[0].as_i64());
                set("counts", Value::Array(all));
                set("none", json!(none));
                set("errs", json!(errs));
            }
            "set" | "get" | "cfg" => {
                if let Some(s) = self.s8.get_mut(st(op, "s")) {
                    conf_op::<u8, f32, _>(s, op, e);
                } else {
                    let o = self.lookup(st(op, "s"));
                    let mut g = lk(&o);
                    conf_op::<usize, f32, _>(g.conf().expect("configurable"), op, e);
                }
                e.insert("calls".into(), Value::Array(self.log.lock().unwrap().drain(..).collect()));
            }
            "md" => {
                let o = self.lookup(st(op, "s"));
                let mut g = lk(&o);
                md_op(g.conf().expect("configurable"), e);
            }
            "parse" => {
                let ty = match st(op, "ty") {
                    "u" => SamplerOptionType::UInt,
                    "f" => SamplerOptionType::Float,
                    "b" => SamplerOptionType::Bool,
                    _ => SamplerOptionType::String,
                };
                set("strc", chars(st(op, "str")));
                match SamplerOptionValue::parse_value(ty, st(op, "str")) {
                    Ok(v) => set("val", val(&v)),
                    Err(_) => {
                        set("out", json!("err"));
                        set("val", noval());
                    }
                }
            }
            "b_new" => {
                self.builders.0.insert(
                    st(op, "b").into(),
                    B { b: Builder::default(), made: vec![] },
                );
                set("slots", json!([]));
            }
            "b_push" => {
                let log = self.log.clone();
                let fac = op["fac"].clone();
                let made = Arc::new(AtomicUsize::new(0));
                let m2 = made.clone();
                let log2 = log.clone();
                let factory = move || {
                    m2.fetch_add(1, Ordering::SeqCst);
                    Conc::make(&fac, &log2).into_buildable()
                };
                let init: Vec<Conc> = op["init"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| Conc::make(c, &log))
                    .collect();
                let slot: SamplerSlot<usize, f32> = match st(op, "ty") {
                    "static" => SamplerSlot::new_static(factory),
                    "single" => match init.into_iter().next() {
                        None => SamplerSlot::new_single(factory, None::<SampleGreedy>),
                        Some(x) => x.into_single(factory),
                    },
                    _ => SamplerSlot::new_chain(
                        factory,
                        init.into_iter().map(Conc::into_buildable).collect::<Vec<_>>(),
                    ),
                };
                let b = self.builders.0.get_mut(st(op, "b")).unwrap();
                let name = st(op, "name").to_string();
                match op["how"].as_str().unwrap_or("push") {
                    "add" => {
                        let bb = std::mem::take(&mut b.b);
                        b.b = bb + (name, slot);
                    }
                    "addassign" => b.b += (name, slot),
                    "from" => {
                        // rebuild the builder from a list of slots
                        let mut v: Vec<(String, SamplerSlot<usize, f32>)> =
                            b.b.drain(..).collect();
                        v.push((name, slot));
                        b.b = Builder::from(v);
                    }
                    _ => b.b.push_slot(name, slot),
                }
                b.made.push(made);
                set("slots", slots(b));
            }
            "b_cfg" => {
                let b = self.builders.0.get_mut(st(op, "b")).unwrap();
                set("strc", chars(st(op, "str")));
                set("namec", chars(st(op, "name")));
                set("why", json!([]));
                if let Err(x) = b.b.configure(st(op, "name"), st(op, "str")) {
                    set("out", json!("err"));
                    set("err", json!(cfgerr(&x)));
                    set("why", json!(why(&x)));
                }
                set("calls", Value::Array(self.log.lock().unwrap().drain(..).collect()));
                set("slots", slots(b));
            }
            "b_ensure" => {
                let b = self.builders.0.get_mut(st(op, "b")).unwrap();
                let i = us(op, "i");
                b.b[i].1.ensure_present();
                set("slots", slots(b));
            }
            "b_chain" => {
                let b = self.builders.0.remove(st(op, "b")).unwrap();
                set("slots", slots(&b));
                let chain = b.b.into_chain();
                self.sams
                    .insert(st(op, "s").into(), Arc::new(Mutex::new(Obj::Chain(chain))));
                set(
                    "made",
                    json!(b.made.iter().map(|m| m.load(Ordering::SeqCst)).collect::<Vec<_>>()),
                );
            }
            // errors made from others, and what errors show
            "conv" => {
                let arg = st(op, "arg");
                let num = || arg.parse::<usize>().expect("number");
                let (mut parts, mut kind, mut n) = (vec![], String::new(), arg.to_string());
                let x: Option<SamplerError> = match st(op, "what") {
                    "logit" => Some(LogitsError::InvalidLogit(num()).into()),
                    "list" => Some(LogitsError::InternalError(arg.into()).into()),
                    "any" => Some(anyhow::anyhow!(arg.to_string()).into()),
                    "anyctx" => Some(anyhow::Error::from(BuildSamplersError::UnknownSlot(arg.into())).into()),
                    "ctx" => Some(anyhow::anyhow!("other").context(arg.to_string()).into()),
                    "missing" => Some(SamplerError::MissingResource(arg.into())),
                    "internal" => Some(SamplerError::InternalError(arg.into())),
                    "nan" => {
                        let mut v = vec![0.5f32; num() + 3];
                        v[num()] = f32::NAN;
                        Logits::try_from_iter(v).err().map(SamplerError::from)
                    }
                    "intr" => {
                        let v: Vec<u32> = arg.split(' ').map(|t| t.parse().unwrap()).collect();
                        parts = arg.split(' ').map(chars).collect();
                        let i = Interruption::NewTokensGvien(v);
                        kind = "tokens".into();
                        set("txt", chars(&i.to_string()));
                        let c = i.clone();
                        let Interruption::NewTokensGvien(v) = c;
                        n = v.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
                        None
                    }
                    w => panic!("conv {w}"),
                };
                if let Some(x) = x {
                    set("txt", chars(&x.to_string()));
                    let (k, m) = match x {
                        SamplerError::MissingResource(n) => ("missing", n),
                        SamplerError::InternalError(n) => ("internal", n),
                        SamplerError::LogitsError(LogitsError::InvalidLogit(n)) => ("logit", n.to_string()),
                        SamplerError::LogitsError(LogitsError::InternalError(n)) => ("list", n),
                        _ => ("?", String::new()),
                    };
                    (kind, n) = (k.to_string(), m);
                }
                set("argc", chars(arg));
                set("kind", json!(kind));
                set("n", chars(&n));
                set("parts", Value::Array(parts));
            }
            "look" => self.look(e),
            "share" => crate::share::run(op, e),
            x => panic!("unknown op {x}"),
        }
        self.after(op, e);
    }
}
