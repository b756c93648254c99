//! A scripted sampler of our own: shows what the library does with samplers it
//! did not write (chains, wrappers, builder, configuration of every type).
use std::borrow::Cow;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use anyhow::Result;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use serde_json::{json, Value};

use crate::Events;

#[derive(Debug, Clone)]
pub struct Spy<UI, F> {
    pub id: String,
    /// one of these per run, repeated: "none", "first", "fail", "panic", "drop", ["tok", n]
    pub acts: Vec<Value>,
    pub runs: Arc<AtomicUsize>,
    pub tok: Option<u32>,
    pub log: Events,
    pub quiet: bool,
    // options of every type, with keys that share prefixes
    pub al: UI,
    pub alpha: F,
    pub alphabet: UI,
    pub beta: bool,
    pub name: Cow<'static, str>,
    /// declared but not accessible
    pub table: u8,
}

impl<UI: ConfigurableNumValue, F: ConfigurableNumValue> Spy<UI, F> {
    pub fn new(cfg: &Value, log: Events) -> Self {
        Self {
            id: cfg["id"].as_str().unwrap_or("spy").to_string(),
            acts: cfg["acts"].as_array().cloned().unwrap_or_default(),
            runs: Arc::new(AtomicUsize::new(0)),
            tok: None,
            log,
            quiet: cfg["quiet"].as_bool().unwrap_or(false),
            al: UI::from_u64(1).unwrap(),
            alpha: F::from_f64(0.5).unwrap(),
            alphabet: UI::from_u64(2).unwrap(),
            beta: false,
            name: Cow::Borrowed("n"),
            table: match cfg["table"].as_str() {
                Some("one") => 1,
                Some("none") => 2,
                Some("hid") => 3,
                _ => 0,
            },
        }
    }
}

impl<UI, F> Sampler for Spy<UI, F>
where
    UI: ConfigurableNumValue + std::fmt::Debug + Send + Sync,
    F: ConfigurableNumValue + std::fmt::Debug + Send + Sync,
{
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let n = self.id.bytes().map(u32::from).sum::<u32>();
        let mut calls = 0;
        let ok = res
            .with_last_tokens_mut(&mut |t| {
                t.push(n);
                calls += 1;
            })
            .is_ok();
        self.log
            .lock()
            .unwrap()
            .push(json!({"op": "hook", "id": self.id, "n": n, "ok": ok, "calls": calls}));
    }

    fn sample<'a>(
        &mut self,
        _res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> Result<&'a mut Logits, SamplerError> {
        let n = self.runs.fetch_add(1, Ordering::SeqCst);
        self.tok = None;
        let act = if self.acts.is_empty() { json!("none") } else { self.acts[n % self.acts.len()].clone() };
        let raise = match act.as_str() {
            Some("fail" | "pickfail") => Some(SamplerError::InternalError("spy failure".into())),
            Some("intr") => Some(SamplerError::Interrupted(Interruption::NewTokensGvien(vec![n as u32, 7, 7]))),
            Some("intr0") => Some(SamplerError::Interrupted(Interruption::NewTokensGvien(vec![]))),
            Some("lack") => Some(SamplerError::MissingResource("weather".into())),
            Some("lackrng") => Some(SamplerError::MissingResource("rng".into())),
            Some("bad") => Some(LogitsError::InvalidLogit(n + 3).into()),
            Some("badlist") => Some(LogitsError::InternalError("spy list".into()).into()),
            Some("rand") => Some(SamplerError::RandError(rand::Error::new("spy rng"))),
            Some("weights") => Some(SamplerError::RandWeightedError(rand::distributions::WeightedError::NoItem)),
            _ => None,
        };
        if !self.quiet {
            let opts = crate::env::dump_opts::<UI, F, _>(self);
            let x = raise.as_ref().map(crate::env::full).unwrap_or_default();
            self.log
                .lock()
                .unwrap()
                .push(json!({"op": "spyrun", "id": self.id, "opts": opts, "raise": x}));
        }
        if act == "pickfail" {
            self.tok = logits.first().map(|l| l.token_id);
        }
        if let Some(x) = raise {
            return Err(x);
        }
        match act.as_str() {
            Some("none") => {}
            Some("first") => self.tok = logits.first().map(|l| l.token_id),
            Some("last") => self.tok = logits.last().map(|l| l.token_id),
            Some("drop") => {
                logits.pop();
                logits.set_softmax(false);
            }
            Some("panic") => panic!("spy panic"),
            Some(x) => panic!("spy act {x}"),
            None => self.tok = Some(crate::lists::tid(&act[1])),
        }
        Ok(logits)
    }

    fn sampled_token_id(&self) -> Option<TID> {
        self.tok
    }
}

impl<UI, F> ConfigurableSampler<UI, F> for Spy<UI, F>
where
    UI: ConfigurableNumValue,
    F: ConfigurableNumValue,
{
}

fn o(key: &'static str, option_type: SamplerOptionType) -> SamplerOptionMetadata {
    SamplerOptionMetadata {
        key,
        description: None,
        option_type,
    }
}

impl<UI, F> HasSamplerMetadata<UI, F> for Spy<UI, F>
where
    UI: ConfigurableNumValue,
    F: ConfigurableNumValue,
{
    fn sampler_metadata(&self) -> SamplerMetadata {
        use SamplerOptionType::*;
        SamplerMetadata {
            name: "spy",
            description: None,
            options: match self.table {
                1 => vec![o("alpha", Float)],
                2 => vec![],
                3 => vec![
                    o("mode", UInt),
                    o("model", Float),
                    o("mo", Bool),
                    o("zed", UInt),
                    o("zeta", UInt),
                    o("long_name", String),
                    o("long", UInt),
                ],
                _ => vec![
                    o("alpha", Float),
                    o("al", UInt),
                    o("alphabet", UInt),
                    o("beta", Bool),
                    o("name", String),
                    o("locked", UInt),
                ],
            },
        }
    }

    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, F>> {
        let opts = match self.table {
            1 => vec![Some(SamplerOptionValue::Float(self.alpha))],
            2 => vec![],
            3 => vec![
                None,
                Some(SamplerOptionValue::Float(self.alpha)),
                Some(SamplerOptionValue::Bool(self.beta)),
                None,
                Some(SamplerOptionValue::UInt(self.al)),
                Some(SamplerOptionValue::String(Cow::from(self.name.to_string()))),
                None,
            ],
            _ => vec![
                Some(SamplerOptionValue::Float(self.alpha)),
                Some(SamplerOptionValue::UInt(self.al)),
                Some(SamplerOptionValue::UInt(self.alphabet)),
                Some(SamplerOptionValue::Bool(self.beta)),
                Some(SamplerOptionValue::String(Cow::from(self.name.to_string()))),
                None,
            ],
        };
        unsafe { SamplerOptions::build_options(self.sampler_metadata().options, opts) }
    }

    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, F>> {
        let md = self.sampler_metadata().options;
        let opts = match self.table {
            1 => vec![Some(SamplerOptionValueMut::Float(&mut self.alpha))],
            2 => vec![],
            3 => vec![
                None,
                Some(SamplerOptionValueMut::Float(&mut self.alpha)),
                Some(SamplerOptionValueMut::Bool(&mut self.beta)),
                None,
                Some(SamplerOptionValueMut::UInt(&mut self.al)),
                Some(SamplerOptionValueMut::String(&mut self.name)),
                None,
            ],
            _ => vec![
                Some(SamplerOptionValueMut::Float(&mut self.alpha)),
                Some(SamplerOptionValueMut::UInt(&mut self.al)),
                Some(SamplerOptionValueMut::UInt(&mut self.alphabet)),
                Some(SamplerOptionValueMut::Bool(&mut self.beta)),
                Some(SamplerOptionValueMut::String(&mut self.name)),
                None,
            ],
        };
        unsafe { SamplerOptions::build_options(md, opts) }
    }
}

/// The same sampler with option hooks of its own, by script (`hooks`):
///   hlog    note what is called, change nothing
///   hswap   the hook before a setting replaces the value
///   hveto   it refuses some options, after spoiling the value
///   hderive the hook after a setting sets other options
///   hpost   it fails for some
#[derive(Debug, Clone)]
pub struct Hooked {
    pub spy: Spy<usize, f32>,
    pub hooks: String,
}

impl Hooked {
    fn note(&self, c: &str, key: &str, ty: Value, val: Value) {
        let opts = crate::env::dump_opts::<usize, f32, _>(self);
        let key = crate::lists::chars(key);
        self.spy
            .log
            .lock()
            .unwrap()
            .push(json!({"c": c, "key": key, "ty": ty, "val": val, "opts": opts}));
    }
}

impl Sampler for Hooked {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.spy.sample_prepend(res)
    }

    fn sample<'a>(
        &mut self,
        res: &mut dyn HasSamplerResources,
        logits: &'a mut Logits,
    ) -> Result<&'a mut Logits, SamplerError> {
        self.spy.sample(res, logits)
    }

    fn sampled_token_id(&self) -> Option<TID> {
        self.spy.sampled_token_id()
    }
}

impl ConfigurableSampler<usize, f32> for Hooked {
    fn set_option(&mut self, key: &str, val: SamplerOptionValue) -> Result<()> {
        self.note("own", key, json!(""), crate::env::val(&val));
        configurable_sampler::set_option(self, key, val)?;
        Ok(())
    }

    fn pre_set_option(
        &mut self,
        md: &SamplerOptionMetadata,
        val: &mut SamplerOptionValue,
    ) -> Result<()> {
        self.note("pre", md.key, json!(crate::env::tyname(md.option_type)), crate::env::val(val));
        match (self.hooks.as_str(), md.key) {
            ("hswap", "alpha") => *val = SamplerOptionValue::Float(0.25),
            ("hswap", "alphabet") => *val = SamplerOptionValue::Bool(true),
            ("hswap", "name") => *val = SamplerOptionValue::String(Cow::Borrowed("w")),
            ("hswap", "beta") => {
                if let SamplerOptionValue::UInt(n) = *val {
                    *val = SamplerOptionValue::Bool(n != 0);
                }
            }
            ("hveto", "alpha" | "beta") => {
                *val = match md.option_type {
                    SamplerOptionType::Float => SamplerOptionValue::Float(0.75),
                    _ => SamplerOptionValue::Bool(true),
                };
                Err(anyhow::anyhow!("refused"))?
            }
            _ => {}
        }
        Ok(())
    }

    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> Result<()> {
        self.note("post", md.key, json!(crate::env::tyname(md.option_type)), crate::env::noval());
        match (self.hooks.as_str(), md.key) {
            ("hderive", "al") => self.spy.alphabet = 9,
            ("hderive", "alpha") => {
                self.spy.beta = true;
                self.spy.name = Cow::Borrowed("w");
            }
            ("hpost", "al" | "beta" | "name") => Err(anyhow::anyhow!("not after all"))?,
            _ => {}
        }
        Ok(())
    }
}

impl HasSamplerMetadata<usize, f32> for Hooked {
    fn sampler_metadata(&self) -> SamplerMetadata {
        let md = HasSamplerMetadata::<usize, f32>::sampler_metadata(&self.spy);
        SamplerMetadata { name: "hooked", ..md }
    }

    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        self.spy.sampler_options()
    }

    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        self.spy.sampler_options_mut()
    }
}
