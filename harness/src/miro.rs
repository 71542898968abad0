//! Shared by the mirostat checks: driving a sampler step by step.
use llm_samplers::{configure::*, prelude::*};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

use crate::{
    dict,
    ensure,
    fl::{close, F},
    gen::{self, LIn},
    model::Ref,
    res,
    run::Outcome,
};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    Run(LIn),
    SetTau(F),
    SetMu(F),
    /// Set mu to the surprise of this token of the next list, moved by steps.
    MuAt(u16, i8),
    SetEta(F),
    NoRng(LIn),
}

pub fn steps(weight_vocab: u32) -> BoxedStrategy<Vec<Step>> {
    let s = prop_oneof![
        10 => gen::lin(weight_vocab).prop_map(Step::Run),
        2 => prop_oneof![4 => (0.1f32..9.0).prop_map(F), 4 => (-1.0f32..0.5).prop_map(F), 1 => dict::floats(-1.0, 9.0)].prop_map(Step::SetTau),
        1 => prop_oneof![4 => (-1.0f32..20.0).prop_map(F), 1 => Just(F(1e6)), 1 => Just(F(0.0)), 1 => dict::floats(-1.0, 100.0)].prop_map(Step::SetMu),
        4 => (any::<u16>(), prop_oneof![3 => Just(0i8), 1 => -2i8..3]).prop_map(|(i, u)| Step::MuAt(i, u)),
        1 => prop_oneof![4 => (0.0f32..2.0).prop_map(F), 1 => dict::floats(0.0, 2.0)].prop_map(Step::SetEta),
        1 => gen::lin(0).prop_map(Step::NoRng),
    ];
    gen::seq(s, 1..9, 9..80, 300)
}

/// Parameters as the sampler itself reports them.
pub fn get<S: ConfigurableSampler<usize, f32>>(s: &S, key: &str) -> Result<f64, String> {
    match s.get_option(key) {
        Ok(SamplerOptionValue::Float(v)) => Ok(v),
        other => Err(format!("option {key} reads {other:?}")),
    }
}

pub fn set<S: ConfigurableSampler<usize, f32>>(s: &mut S, key: &str, v: f32) -> Outcome {
    s.set_option(key, SamplerOptionValue::Float(v as f64)).map_err(|e| format!("setting {key}: {e}"))
}

/// Surprise in bits of place `i`, with the range rounding may put it in.
pub fn surprise(r: &Ref, i: usize) -> (f64, f64) {
    let p = r.p[i];
    if p < 1e-37 {
        return (120.0, f64::INFINITY);
    }
    let s = -p.log2();
    if r.exact {
        return (s, s);
    }
    let e = 1.5 * r.rounding(i) + 2e-7 * s.abs();
    (s - e, s + e)
}

/// Check the pick and the update of mu after a successful run.
pub fn check_pick(
    r: &Ref,
    l: &Logits,
    token: Option<u32>,
    mu: (f64, f64),
    tau: f64,
    eta: f64,
) -> Outcome {
    let kept = l.len();
    let Some(t) = token else {
        return Err(format!("no token picked from {kept}"));
    };
    let Some(x) = l.iter().find(|x| x.token_id == t) else {
        return Err(format!("picked token {t}, which is not among the {kept} kept"));
    };
    let i = r.sorted.iter().position(|s| *s == x.logit).unwrap_or(0);
    ensure!(r.p[i] > 0.0 && x.logit != f32::NEG_INFINITY, "picked token {t} of probability zero");
    let q = r.p[i] / r.cum[kept - 1];
    if q < 1e-37 {
        return Ok(());
    }
    let s = -q.log2();
    let want = mu.0 - eta * (s - tau);
    let scale = mu.0.abs() + eta.abs() * (s.abs() + tau.abs() + 2.0);
    ensure!(
        close(mu.1 as f32, want, 3e-6 + r.rounding(i) + 1e-7 * kept as f64, scale),
        "mu was {}, eta {eta}, tau {tau}, token {t} of surprise {s} picked: mu became {}, expected {want}",
        mu.0, mu.1
    );
    Ok(())
}

/// Many draws with the cut held fixed follow the renormalised distribution.
pub fn check_frequencies<S: Sampler + Clone>(
    s: &S,
    list: &Logits,
    r: &Ref,
    kept: usize,
    seed: u64,
    draws: usize,
) -> Outcome {
    let mut res = res::simple(Some(seed), None);
    let mut counts: HashMap<u32, u64> = HashMap::new();
    for _ in 0..draws {
        let mut l = list.clone();
        let mut s = s.clone();
        match s.sample_token(&mut res, &mut l).map_err(|e| e.to_string())? {
            Some(t) => *counts.entry(t).or_default() += 1,
            None => return Err("no token picked".into()),
        }
    }
    let nd = draws as f64;
    let ln = (2e12f64).ln();
    // By logit: which of several equal tokens survive a cut is open.
    let mut by: HashMap<u32, (f64, f64)> = HashMap::new();
    for i in 0..kept {
        let e = by.entry((r.sorted[i] + 0.0).to_bits()).or_default();
        e.0 += r.p[i] / r.cum[kept - 1];
    }
    for x in list.iter() {
        let got = counts.get(&x.token_id).copied().unwrap_or(0) as f64;
        match by.get_mut(&(x.logit + 0.0).to_bits()) {
            Some(e) => e.1 += got,
            None => ensure!(got == 0.0, "token {} was cut but picked {got} times", x.token_id),
        }
    }
    for (bits, (q, got)) in by {
        let dev = (2.0 * nd * q * (1.0 - q).max(0.0) * ln).sqrt() + ln + nd * (q * 1e-4 + 1e-7);
        ensure!(
            (got - nd * q).abs() <= dev,
            "tokens of logit {:?} have {q:.6} of the kept mass, but came up {got} times in {draws} draws",
            f32::from_bits(bits)
        );
    }
    Ok(())
}
