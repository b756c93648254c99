//! Candidate lists in and out of JSON.  f32 values travel as their bit pattern
//! reinterpreted as i32, token ids as u32 reinterpreted as i32.
use llm_samplers::prelude::*;
use serde_json::{json, Value};

pub fn f(v: &Value) -> f32 {
    f32::from_bits(v.as_i64().expect("f32 bits") as i32 as u32)
}

pub fn fbits(x: f32) -> i32 {
    // one NaN, so that equal outcomes have equal records
    if x.is_nan() {
        return 0x7fc0_0000;
    }
    x.to_bits() as i32
}

pub fn tid(v: &Value) -> u32 {
    v.as_i64().expect("token id") as i32 as u32
}

/// A usize parameter: a number, or a decimal string for values TLC cannot hold.
pub fn us(cfg: &Value, key: &str) -> usize {
    if let Some(s) = cfg.get(format!("{key}x")).and_then(Value::as_str) {
        return s.parse().expect("usize");
    }
    cfg[key].as_u64().unwrap_or_else(|| panic!("usize {key} in {cfg}")) as usize
}

pub fn dump(l: &Logits) -> Value {
    Value::Array(
        l.iter()
            .map(|x| json!([x.token_id as i32, fbits(x.logit), fbits(x.prob)]))
            .collect(),
    )
}

pub fn raw(e: &Value, so: bool, sm: bool) -> Logits {
    let mut l = Logits::default();
    for x in e.as_array().expect("entries") {
        l.push(Logit {
            token_id: tid(&x[0]),
            logit: f(&x[1]),
            prob: f(&x[2]),
        });
    }
    l.set_sorted(so);
    l.set_softmax(sm);
    l
}

pub fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c.to_string())).collect())
}

pub fn f64pair(x: f64) -> Value {
    let b = if x.is_nan() {
        f64::NAN.to_bits()
    } else if x == 0.0 {
        0
    } else {
        x.to_bits()
    };
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}

pub fn pair_f64(v: &Value) -> f64 {
    let hi = v[0].as_i64().expect("hi") as i32 as u32 as u64;
    let lo = v[1].as_i64().expect("lo") as i32 as u32 as u64;
    f64::from_bits((hi << 32) | lo)
}
