//! Sampler objects under test and the transparent handle that records what a
//! chain does with its members.
use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use serde_json::{json, Value};

use crate::lists::*;
use crate::spy::{Hooked, Spy};
use crate::Events;

pub type Dyn = dyn BuildableSampler<usize, f32>;

/// A concrete built-in sampler (or our spy), cloneable.
#[derive(Debug, Clone)]
pub enum Conc {
    TopK(SampleTopK),
    TopP(SampleTopP),
    MinP(SampleMinP),
    TopA(SampleTopA),
    LocTyp(SampleLocallyTypical),
    TailFree(SampleTailFree),
    Temp(SampleTemperature),
    Flat(SampleFlatBias),
    Rep(SampleRepetition),
    Freq(SampleFreqPresence),
    SeqRep(SampleSeqRepetition),
    Greedy(SampleGreedy),
    Rand(SampleRandDistrib),
    Miro1(SampleMirostat1),
    Miro2(SampleMirostat2),
    Spy(Spy<usize, f32>),
    Hooked(Hooked),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Conc::TopK($x) => $e,
            Conc::TopP($x) => $e,
            Conc::MinP($x) => $e,
            Conc::TopA($x) => $e,
            Conc::LocTyp($x) => $e,
            Conc::TailFree($x) => $e,
            Conc::Temp($x) => $e,
            Conc::Flat($x) => $e,
            Conc::Rep($x) => $e,
            Conc::Freq($x) => $e,
            Conc::SeqRep($x) => $e,
            Conc::Greedy($x) => $e,
            Conc::Rand($x) => $e,
            Conc::Miro1($x) => $e,
            Conc::Miro2($x) => $e,
            Conc::Spy($x) => $e,
            Conc::Hooked($x) => $e,
        }
    };
}

impl Conc {
    pub fn make(cfg: &Value, log: &Events) -> Conc {
        let how = cfg["how"].as_str().unwrap_or("new");
        let with = how == "with";
        let k = cfg["k"].as_str().expect("sampler kind");
        let fl = |n: &str| f(&cfg[n]);
        let un = |n: &str| us(cfg, n);
        if how == "default" {
            return match k {
                "topk" => Conc::TopK(Default::default()),
                "topp" => Conc::TopP(Default::default()),
                "minp" => Conc::MinP(Default::default()),
                "topa" => Conc::TopA(Default::default()),
                "loctyp" => Conc::LocTyp(Default::default()),
                "tailfree" => Conc::TailFree(Default::default()),
                "temp" => Conc::Temp(Default::default()),
                "flat" => Conc::Flat(Default::default()),
                "rep" => Conc::Rep(Default::default()),
                "freq" => Conc::Freq(Default::default()),
                "seqrep" => Conc::SeqRep(Default::default()),
                "greedy" => Conc::Greedy(Default::default()),
                "rand" => Conc::Rand(Default::default()),
                "miro1" => Conc::Miro1(Default::default()),
                "miro2" => Conc::Miro2(Default::default()),
                "spy" => Conc::Spy(Spy::new(cfg, log.clone())),
                k => panic!("sampler kind {k}"),
            };
        }
        if how == "calls" {
            return Conc::by_calls(k, cfg);
        }
        match k {
            "topk" if with => {
                Conc::TopK(SampleTopK::default().min_keep(un("mk")).k(un("n")))
            }
            "topk" => Conc::TopK(SampleTopK::new(un("n"), un("mk"))),
            "topp" if with => Conc::TopP(SampleTopP::default().min_keep(un("mk")).p(fl("p"))),
            "topp" => Conc::TopP(SampleTopP::new(fl("p"), un("mk"))),
            "minp" if with => Conc::MinP(SampleMinP::default().p(fl("p")).min_keep(un("mk"))),
            "minp" => Conc::MinP(SampleMinP::new(fl("p"), un("mk"))),
            "topa" if with => Conc::TopA(
                SampleTopA::default()
                    .a2(fl("a2"))
                    .a1(fl("a1"))
                    .min_keep(un("mk")),
            ),
            "topa" => Conc::TopA(SampleTopA::new(fl("a1"), fl("a2"), un("mk"))),
            "loctyp" if with => {
                Conc::LocTyp(SampleLocallyTypical::default().p(fl("p")).min_keep(un("mk")))
            }
            "loctyp" => Conc::LocTyp(SampleLocallyTypical::new(fl("p"), un("mk"))),
            "tailfree" if with => {
                Conc::TailFree(SampleTailFree::default().z(fl("z")).min_keep(un("mk")))
            }
            "tailfree" => Conc::TailFree(SampleTailFree::new(fl("z"), un("mk"))),
            "temp" if with => Conc::Temp(SampleTemperature::default().temperature(fl("t"))),
            "temp" => Conc::Temp(SampleTemperature::new(fl("t"))),
            "flat" => {
                let b: Vec<(u32, f32)> = cfg["b"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (tid(&x[0]), f(&x[1])))
                    .collect();
                if with {
                    let mut s = SampleFlatBias::default();
                    s.extend(b);
                    Conc::Flat(s)
                } else {
                    Conc::Flat(SampleFlatBias::new(b))
                }
            }
            "rep" if with => {
                Conc::Rep(SampleRepetition::default().penalty(fl("pen")).last_n(un("ln")))
            }
            "rep" => Conc::Rep(SampleRepetition::new(fl("pen"), un("ln"))),
            "freq" if with => Conc::Freq(
                SampleFreqPresence::default()
                    .last_n(un("ln"))
                    .presence(fl("p"))
                    .frequency(fl("f")),
            ),
            "freq" => Conc::Freq(SampleFreqPresence::new(fl("f"), fl("p"), un("ln"))),
            "seqrep" if with => Conc::SeqRep(
                SampleSeqRepetition::default()
                    .last_n(un("ln"))
                    .max_merge(un("mm"))
                    .tolerance(un("tol"))
                    .min_length(un("ml"))
                    .stacking_penalty(fl("s"))
                    .flat_penalty(fl("f")),
            ),
            "seqrep" => Conc::SeqRep(SampleSeqRepetition::new(
                fl("f"),
                fl("s"),
                un("ml"),
                un("tol"),
                un("mm"),
                un("ln"),
            )),
            "greedy" if with => Conc::Greedy(SampleGreedy::default()),
            "greedy" => Conc::Greedy(SampleGreedy::new()),
            "rand" if with => Conc::Rand(SampleRandDistrib::default()),
            "rand" => Conc::Rand(SampleRandDistrib::new()),
            "miro1" => {
                let mut s = if with {
                    SampleMirostat1::default()
                        .n_vocab(un("nv"))
                        .eta(fl("eta"))
                        .tau(fl("tau"))
                } else {
                    SampleMirostat1::new(un("nv"), fl("tau"), fl("eta"))
                };
                s = s.m(un("m"));
                if cfg["hmu"].as_bool().unwrap_or(false) {
                    s = s.mu(fl("mu"));
                }
                Conc::Miro1(s)
            }
            "miro2" => {
                let mut s = if with {
                    SampleMirostat2::default().eta(fl("eta")).tau(fl("tau"))
                } else {
                    SampleMirostat2::new(fl("tau"), fl("eta"))
                };
                if cfg["hmu"].as_bool().unwrap_or(false) {
                    s = s.mu(fl("mu"));
                }
                Conc::Miro2(s)
            }
            "spy" => Conc::Spy(Spy::new(cfg, log.clone())),
            "hspy" => Conc::Hooked(Hooked {
                spy: Spy::new(cfg, log.clone()),
                hooks: cfg["hooks"].as_str().expect("hooks").into(),
            }),
            k => panic!("sampler kind {k}"),
        }
    }

    /// A sampler made by its constructor (or by default) and then by its
    /// builder methods, in the order given.
    fn by_calls(k: &str, cfg: &Value) -> Conc {
        let none = vec![];
        let args = cfg["args"].as_array().unwrap_or(&none);
        let calls = cfg["calls"].as_array().unwrap_or(&none);
        let new = cfg["from"] == "new";
        let u = |v: &Value| -> usize {
            let d: String = v["d"].as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
            d.parse::<u64>().unwrap() as usize
        };
        let x = |v: &Value| pair_f64(&v["v"]) as f32;
        let arg = |n: &str| &args.iter().find(|a| a["key"] == n).expect("argument")["val"];
        let (au, af) = (|n: &str| u(arg(n)), |n: &str| x(arg(n)));
        macro_rules! made {
            ($conc:ident, $ty:ident, $new:expr, $($key:literal $m:ident $conv:ident),*) => {{
                let mut s = if new { $new } else { $ty::default() };
                for c in calls {
                    let v = &c["val"];
                    s = match c["key"].as_str().unwrap() {
                        $($key => s.$m($conv(v)),)*
                        key => panic!("no method for {key}"),
                    };
                }
                Conc::$conc(s)
            }};
        }
        match k {
            "topk" => made!(TopK, SampleTopK, SampleTopK::new(au("k"), au("min_keep")),
                "k" k u, "min_keep" min_keep u),
            "topp" => made!(TopP, SampleTopP, SampleTopP::new(af("p"), au("min_keep")),
                "p" p x, "min_keep" min_keep u),
            "minp" => made!(MinP, SampleMinP, SampleMinP::new(af("p"), au("min_keep")),
                "p" p x, "min_keep" min_keep u),
            "topa" => made!(TopA, SampleTopA, SampleTopA::new(af("a1"), af("a2"), au("min_keep")),
                "a1" a1 x, "a2" a2 x, "min_keep" min_keep u),
            "loctyp" => made!(LocTyp, SampleLocallyTypical,
                SampleLocallyTypical::new(af("p"), au("min_keep")),
                "p" p x, "min_keep" min_keep u),
            "tailfree" => made!(TailFree, SampleTailFree,
                SampleTailFree::new(af("z"), au("min_keep")),
                "z" z x, "min_keep" min_keep u),
            "temp" => made!(Temp, SampleTemperature, SampleTemperature::new(af("temperature")),
                "temperature" temperature x),
            "rep" => made!(Rep, SampleRepetition,
                SampleRepetition::new(af("penalty"), au("last_n")),
                "penalty" penalty x, "last_n" last_n u),
            "freq" => made!(Freq, SampleFreqPresence,
                SampleFreqPresence::new(af("frequency_penalty"), af("presence_penalty"), au("last_n")),
                "frequency_penalty" frequency x, "presence_penalty" presence x, "last_n" last_n u),
            "seqrep" => made!(SeqRep, SampleSeqRepetition,
                SampleSeqRepetition::new(
                    af("flat_penalty"), af("stacking_penalty"), au("min_length"),
                    au("tolerance"), au("max_merge"), au("last_n")),
                "flat_penalty" flat_penalty x, "stacking_penalty" stacking_penalty x,
                "min_length" min_length u, "tolerance" tolerance u,
                "max_merge" max_merge u, "last_n" last_n u),
            "miro1" => made!(Miro1, SampleMirostat1,
                SampleMirostat1::new(au("n_vocab"), af("tau"), af("eta")),
                "tau" tau x, "eta" eta x, "mu" mu x, "m" m u, "n_vocab" n_vocab u),
            "miro2" => made!(Miro2, SampleMirostat2, SampleMirostat2::new(af("tau"), af("eta")),
                "tau" tau x, "eta" eta x, "mu" mu x),
            k => panic!("sampler kind {k}"),
        }
    }

    pub fn bm(&mut self) -> &mut Dyn {
        each!(self, x => x)
    }

    pub fn br(&self) -> &Dyn {
        each!(self, x => x)
    }

    pub fn into_buildable(self) -> Box<Dyn> {
        each!(self, x => Box::new(x))
    }

    pub fn into_single(self, factory: impl FnMut() -> Box<Dyn> + 'static) -> SamplerSlot<usize, f32> {
        each!(self, x => SamplerSlot::new_single(factory, Some(x)))
    }

    pub fn into_sampler(self) -> Box<dyn Sampler> {
        each!(self, x => Box::new(x))
    }

    pub fn into_arc(self) -> Arc<Mutex<dyn Sampler>> {
        each!(self, x => Arc::new(Mutex::new(x)))
    }

    pub fn push_to(self, how: &str, chain: &mut SamplerChain) {
        each!(self, x => push(x, how, chain))
    }
}

fn push<S: Sampler + Send + Sync + 'static>(s: S, how: &str, chain: &mut SamplerChain) {
    match how {
        "add" => {
            let c = std::mem::take(chain);
            *chain = c + s;
        }
        "addassign" => *chain += s,
        _ => {
            chain.push_sampler(s);
        }
    }
}

#[derive(Debug)]
pub enum Obj {
    C(Conc),
    Chain(SamplerChain),
    Boxed(Box<dyn Sampler>),
    Built(Box<Dyn>),
    Arc(Arc<Mutex<dyn Sampler>>),
    H(Handle),
}

pub type Shared = Arc<Mutex<Obj>>;

/// Transparent handle around another object: forwards everything and records
/// each run it forwards.
#[derive(Debug)]
pub struct Handle {
    pub name: String,
    pub inner: Shared,
    pub log: Events,
}

impl Handle {
    fn note(
        &self,
        m: &str,
        pre: (Value, bool, bool),
        out: &str,
        err: String,
        ret: Option<u32>,
        logits: &Logits,
        inner: &Obj,
    ) {
        self.log.lock().unwrap().push(json!({
            "op": "member", "s": self.name, "m": m,
            "pre": pre.0, "preso": pre.1, "presm": pre.2,
            "out": out, "err": err, "ret": topt(ret),
            "post": dump(logits), "so": logits.get_sorted(), "sm": logits.get_softmax(),
            "tok": topt(inner.sampled_token_id()),
            "hasmu": mu_of(inner).is_some(), "mu": mu_of(inner).unwrap_or(0),
        }));
    }
}

pub fn topt(t: Option<u32>) -> Value {
    // None is the string-free marker <<>>; Some(t) is <<t>>
    match t {
        None => json!([]),
        Some(t) => json!([t as i32]),
    }
}

pub fn errname(e: &SamplerError) -> String {
    match e {
        SamplerError::MissingResource(n) => format!("missing:{n}"),
        SamplerError::InternalError(_) => "internal".into(),
        SamplerError::LogitsError(LogitsError::InvalidLogit(n)) => format!("logits:{n}"),
        SamplerError::LogitsError(_) => "logits".into(),
        SamplerError::RandError(_) => "rand".into(),
        SamplerError::RandWeightedError(_) => "weights".into(),
        SamplerError::Interrupted(Interruption::NewTokensGvien(v)) => format!("interrupted:{v:?}"),
    }
}

pub fn mu_of(o: &Obj) -> Option<i32> {
    let b: &Dyn = match o {
        Obj::C(c @ (Conc::Miro1(_) | Conc::Miro2(_))) => c.br(),
        Obj::Built(b) if b.sampler_metadata().name.starts_with("mirostat") => &**b,
        _ => return None,
    };
    match b.get_option("mu") {
        Ok(SamplerOptionValue::Float(v)) => Some(fbits(v as f32)),
        _ => None,
    }
}

impl Obj {
    pub fn s(&mut self) -> &mut dyn Sampler {
        match self {
            Obj::C(c) => each!(c, x => x),
            Obj::Chain(c) => c,
            Obj::Boxed(b) => b,
            Obj::Built(b) => b,
            Obj::Arc(a) => a,
            Obj::H(h) => h,
        }
    }
    pub fn sr(&self) -> &dyn Sampler {
        match self {
            Obj::C(c) => each!(c, x => x),
            Obj::Chain(c) => c,
            Obj::Boxed(b) => b,
            Obj::Built(b) => b,
            Obj::Arc(a) => a,
            Obj::H(h) => h,
        }
    }
    pub fn sampled_token_id(&self) -> Option<u32> {
        let t = self.sr().sampled_token_id();
        if let Obj::C(Conc::Greedy(g)) = self {
            // the same by its own accessors
            if g.get_token_id() != t || **g != t {
                return Some(u32::MAX - 6);
            }
        }
        t
    }
    pub fn conf(&mut self) -> Option<&mut Dyn> {
        match self {
            Obj::C(c) => Some(c.bm()),
            Obj::Built(b) => Some(&mut **b),
            _ => None,
        }
    }
    pub fn confr(&self) -> Option<&Dyn> {
        match self {
            Obj::C(c) => Some(c.br()),
            Obj::Built(b) => Some(&**b),
            _ => None,
        }
    }
}

impl Sampler for Handle {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.inner.lock().unwrap().sr().sample_prepend(res)
    }

    fn sample<'a>(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> anyhow::Result<&'a mut Logits, SamplerError> {
        let mut g = self.inner.lock().unwrap();
        let pre = (dump(logits), logits.get_sorted(), logits.get_softmax());
        let r = g.s().sample(res, logits).map(|_| ());
        let (out, err) = match &r {
            Ok(()) => ("ok", String::new()),
            Err(e) => ("err", errname(e)),
        };
        self.note("s", pre, out, err, None, logits, &g);
        r.map(|()| logits)
    }

    fn sampled_token_id(&self) -> Option<TID> {
        self.inner.lock().unwrap().sampled_token_id()
    }

    fn sample_token(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &mut Logits,
    ) -> Result<Option<TID>, SamplerError> {
        let mut g = self.inner.lock().unwrap();
        let pre = (dump(logits), logits.get_sorted(), logits.get_softmax());
        let r = g.s().sample_token(res, logits);
        let (out, err, ret) = match &r {
            Ok(t) => ("ok", String::new(), *t),
            Err(e) => ("err", errname(e), None),
        };
        self.note("t", pre, out, err, ret, logits, &g);
        r
    }
}

/// Build an object from its description.  Chains take members described inline
/// (moved in as they are) or as {"ref": name} (recorded through a handle).
pub fn make(
    cfg: &Value,
    log: &Events,
    lookup: &dyn Fn(&str) -> Shared,
) -> Obj {
    if cfg["k"].as_str() == Some("chain") {
        let how = cfg["how"].as_str().unwrap_or("push");
        let mut chain = SamplerChain::new();
        for m in cfg["mem"].as_array().expect("members") {
            add_member(&mut chain, m, how, log, lookup);
        }
        return wrap(Obj::Chain(chain), cfg);
    }
    if cfg["k"].as_str() == Some("sref") {
        // another locked handle on an existing shared sampler
        let o = lookup(cfg["s"].as_str().unwrap());
        let g = o.lock().unwrap();
        match &*g {
            Obj::Arc(a) => return Obj::Arc(a.clone()),
            _ => panic!("sref to a sampler that is not shared"),
        }
    }
    wrap(Obj::C(Conc::make(cfg, log)), cfg)
}

fn wrap(o: Obj, cfg: &Value) -> Obj {
    let o = match (cfg["wrap"].as_str().unwrap_or(""), o) {
        ("", o) => o,
        ("box", Obj::C(c)) => Obj::Boxed(c.into_sampler()),
        ("box", Obj::Chain(c)) => Obj::Boxed(Box::new(c)),
        ("box2", Obj::C(c)) => Obj::Boxed(Box::new(c.into_sampler())),
        ("arc", Obj::C(c)) => Obj::Arc(c.into_arc()),
        ("arc", Obj::Chain(c)) => Obj::Arc(Arc::new(Mutex::new(c))),
        ("arcbox", Obj::C(c)) => Obj::Arc(Arc::new(Mutex::new(c.into_sampler()))),
        ("boxarc", Obj::C(c)) => Obj::Boxed(Box::new(c.into_arc())),
        ("built", Obj::C(c)) => Obj::Built(c.into_buildable()),
        ("boxbuilt", Obj::C(c)) => Obj::Boxed(Box::new(c.into_buildable())),
        (w, o) => panic!("wrap {w} of {o:?}"),
    };
    o
}

pub fn add_member(
    chain: &mut SamplerChain,
    m: &Value,
    how: &str,
    log: &Events,
    lookup: &dyn Fn(&str) -> Shared,
) {
    if let Some(name) = m["ref"].as_str() {
        let h = Handle {
            name: name.to_string(),
            inner: lookup(name),
            log: log.clone(),
        };
        push(h, how, chain);
        return;
    }
    match make(m, log, lookup) {
        Obj::C(c) => c.push_to(how, chain),
        Obj::Chain(c) => push(c, how, chain),
        Obj::Boxed(b) => push(b, how, chain),
        Obj::Built(b) => push(b, how, chain),
        Obj::Arc(a) => push(a, how, chain),
        Obj::H(h) => push(h, how, chain),
    }
}
