//! Resources with a counting, optionally scripted RNG.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use llm_samplers::prelude::*;
use rand::{RngCore, SeedableRng};
use serde_json::Value;

pub struct CountingRng {
    draws: Arc<AtomicU64>,
    src: Src,
}

enum Src {
    Std(Box<rand::rngs::StdRng>),
    Words(Vec<u32>, usize),
}

impl RngCore for CountingRng {
    fn next_u32(&mut self) -> u32 {
        self.draws.fetch_add(1, Ordering::SeqCst);
        match &mut self.src {
            Src::Std(r) => r.next_u32(),
            Src::Words(w, i) => {
                let x = w[*i % w.len()];
                *i += 1;
                x
            }
        }
    }
    fn next_u64(&mut self) -> u64 {
        (u64::from(self.next_u32()) << 32) | u64::from(self.next_u32())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Debug)]
pub enum AnyRes {
    Simple(SimpleSamplerResources),
    Nil(NilSamplerResources),
    Unit(()),
    Sick(Sick),
}

/// A user's own resources, which fail in their own way.
#[derive(Debug)]
pub struct Sick(u64);

impl Sick {
    pub fn error(&self) -> SamplerError {
        match self.0 % 5 {
            0 => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![4, 2])),
            1 => SamplerError::InternalError("sick resource".into()),
            2 => SamplerError::MissingResource("health".into()),
            3 => LogitsError::InvalidLogit(11).into(),
            _ => SamplerError::RandError(rand::Error::new("sick rng")),
        }
    }
}

impl HasSamplerResources for Sick {
    fn with_rng_mut(&mut self, _fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        Err(self.error())
    }
    fn with_last_tokens(&self, _fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        Err(self.error())
    }
    fn with_last_tokens_mut(&mut self, _fun: &mut dyn FnMut(&mut Vec<TID>)) -> Result<(), SamplerError> {
        Err(self.error())
    }
}

pub struct Res {
    pub res: AnyRes,
    pub draws: Arc<AtomicU64>,
}

impl Res {
    pub fn new(op: &Value) -> Self {
        let draws = Arc::new(AtomicU64::new(0));
        let rng: Option<Box<dyn RngCore + Send + Sync>> = match &op["rng"] {
            Value::String(_) => None,
            v => Some(Box::new(CountingRng {
                draws: draws.clone(),
                src: if let Some(w) = v.get("words") {
                    Src::Words(
                        w.as_array()
                            .unwrap()
                            .iter()
                            .map(|x| x.as_i64().unwrap() as i32 as u32)
                            .collect(),
                        0,
                    )
                } else {
                    Src::Std(Box::new(rand::rngs::StdRng::seed_from_u64(
                        v["seed"].as_u64().expect("seed"),
                    )))
                },
            })),
        };
        let hist = op["hh"].as_bool().unwrap_or(false).then(|| {
            op["hist"]
                .as_array()
                .expect("hist")
                .iter()
                .map(crate::lists::tid)
                .collect::<Vec<_>>()
        });
        let res = match op["kind"].as_str().unwrap_or("simple") {
            "simple" => AnyRes::Simple(SimpleSamplerResources::new(rng, hist)),
            "nil" => AnyRes::Nil(NilSamplerResources::new()),
            "unit" => AnyRes::Unit(()),
            "sick" => AnyRes::Sick(Sick(op["rng"]["seed"].as_u64().unwrap_or(0))),
            k => panic!("resource kind {k}"),
        };
        Self { res, draws }
    }

    pub fn dynm(&mut self) -> &mut dyn HasSamplerResources {
        match &mut self.res {
            AnyRes::Simple(r) => r,
            AnyRes::Nil(r) => r,
            AnyRes::Unit(r) => r,
            AnyRes::Sick(r) => r,
        }
    }

    pub fn dynr(&self) -> &dyn HasSamplerResources {
        match &self.res {
            AnyRes::Simple(r) => r,
            AnyRes::Nil(r) => r,
            AnyRes::Unit(r) => r,
            AnyRes::Sick(r) => r,
        }
    }

    /// The history as the resource object shows it in its debug output is the
    /// same thing; the accessor is the public way to read it.
    pub fn history(&self) -> Option<Vec<u32>> {
        let mut out = None;
        let _ = self.dynr().with_last_tokens(&mut |t| out = Some(t.clone()));
        out
    }

    /// How a sick one fails.
    pub fn sick(&self) -> String {
        match &self.res {
            AnyRes::Sick(s) => crate::env::full(&s.error()),
            _ => String::new(),
        }
    }

    pub fn draws(&self) -> u64 {
        self.draws.load(Ordering::SeqCst)
    }
}
