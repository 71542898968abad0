//! Reference models and validity predicates.
use std::collections::HashMap;

use llm_samplers::prelude::*;

use crate::{ensure, fl::same, gen::LIn, run::Outcome};

/// The list before a sampler ran, with the true distribution in f64.
pub struct Ref {
    pub before: Vec<Logit>,
    /// Logits in descending order.
    pub sorted: Vec<f32>,
    /// True probabilities, descending, aligned with `sorted`.
    pub p: Vec<f64>,
    /// Prefix sums of `p`: `cum[i]` is the mass of the first `i + 1`.
    pub cum: Vec<f64>,
    /// f32 arithmetic on these probabilities is exact, so thresholds are too.
    pub exact: bool,
}

fn prefix_sums(p: &[f64]) -> Vec<f64> {
    p.iter()
        .scan(0.0, |c, p| {
            *c += p;
            Some(*c)
        })
        .collect()
}

fn is_dyadic_exact(l: &Logits, spec: &LIn) -> bool {
    let Some(want) = spec.vals.dyadic_probs() else {
        return false;
    };
    let ids = spec.ids(want.len());
    let map: HashMap<u32, f64> = ids.into_iter().zip(want).collect();
    let mut c = l.clone();
    if c.ensure_softmax().is_err() {
        return false;
    }
    c.iter().all(|x| map.get(&x.token_id) == Some(&(x.prob as f64)))
}

impl Ref {
    pub fn new(l: &Logits) -> Self {
        Self::from_items(l.to_vec())
    }
    pub fn for_spec(l: &Logits, spec: &LIn) -> Self {
        let mut r = Self::new(l);
        if is_dyadic_exact(l, spec) {
            // The f32 logits only approximate the logarithms.
            r.exact = true;
            r.p = spec.vals.dyadic_probs().unwrap_or_default();
            r.p.sort_by(|a, b| b.total_cmp(a));
            r.cum = prefix_sums(&r.p);
        }
        r
    }
    pub fn from_items(before: Vec<Logit>) -> Self {
        let mut sorted: Vec<f32> = before.iter().map(|l| l.logit).collect();
        sorted.sort_by(|a, b| b.total_cmp(a));
        let max = sorted.first().copied().unwrap_or(0.0) as f64;
        let e: Vec<f64> = sorted.iter().map(|l| (*l as f64 - max).exp()).collect();
        // Summing from the small end keeps the reference accurate.
        let sum: f64 = e.iter().rev().sum();
        let p: Vec<f64> = e.iter().map(|e| e / sum).collect();
        let cum = prefix_sums(&p);
        Self { before, sorted, p, cum, exact: false }
    }
    pub fn n(&self) -> usize {
        self.before.len()
    }
    /// The softmax is well defined: a largest logit exists and is finite.
    pub fn defined(&self) -> bool {
        self.sorted.first().is_none_or(|m| m.is_finite()) && self.sorted.iter().all(|x| !x.is_nan())
    }
    /// Relative error an f32 softmax may have on entry `i`.
    pub fn relp(&self, i: usize) -> f64 {
        if self.exact {
            return 0.0;
        }
        self.rounding(i)
    }
    /// The same where later arithmetic rounds even if the softmax was exact.
    pub fn rounding(&self, i: usize) -> f64 {
        let d = (self.sorted[0] as f64 - self.sorted[i] as f64).min(120.0);
        3e-6 + 2e-7 * d + 1.3e-7 * self.n() as f64
    }
    /// Absolute error a sum of f32 probabilities may have.
    pub fn tol_cum(&self) -> f64 {
        if self.exact {
            return 0.0;
        }
        8e-6 + 4e-7 * self.n() as f64
    }
    /// Probability of the entry with this logit.
    pub fn p_of_logit(&self, l: f32) -> Option<f64> {
        self.sorted.iter().position(|x| same(*x, l)).map(|i| self.p[i])
    }
}

/// Tokens left over are tokens that were there, unaltered and not repeated.
pub fn check_subset(before: &[Logit], after: &[Logit]) -> Outcome {
    ensure!(
        after.len() <= before.len(),
        "{} tokens came out of {}",
        after.len(),
        before.len()
    );
    if before.len() <= 12 {
        for (i, a) in after.iter().enumerate() {
            ensure!(
                before.iter().any(|b| b.token_id == a.token_id && b.logit.to_bits() == a.logit.to_bits()),
                "token {} with logit {:?} was not in the input",
                a.token_id,
                a.logit
            );
            ensure!(
                !after[..i].iter().any(|o| o.token_id == a.token_id),
                "token {} appears twice",
                a.token_id
            );
        }
        return Ok(());
    }
    let mut m: HashMap<u32, u32> = before.iter().map(|b| (b.token_id, b.logit.to_bits())).collect();
    for a in after {
        match m.remove(&a.token_id) {
            None => return Err(format!("token {} is new or appears twice", a.token_id)),
            Some(bits) => ensure!(
                bits == a.logit.to_bits(),
                "token {} changed its logit from {:?} to {:?}",
                a.token_id,
                f32::from_bits(bits),
                a.logit
            ),
        }
    }
    Ok(())
}

/// Same tokens with the same logits, in any order.
pub fn check_same_tokens(before: &[Logit], after: &[Logit]) -> Outcome {
    ensure!(before.len() == after.len(), "length {} became {}", before.len(), after.len());
    check_subset(before, after)
}

/// The survivors are the `after.len()` best of `r` (any choice among ties).
pub fn check_top(r: &Ref, after: &[Logit]) -> Outcome {
    check_subset(&r.before, after)?;
    let mut v: Vec<f32> = after.iter().map(|l| l.logit).collect();
    v.sort_by(|a, b| b.total_cmp(a));
    for (i, (got, want)) in v.iter().zip(&r.sorted).enumerate() {
        ensure!(
            same(*got, *want),
            "the {} survivors are not the best: place {i} is {got:?}, should be {want:?}",
            v.len()
        );
    }
    Ok(())
}

/// What the flags claim is true.
pub fn check_flags(l: &Logits) -> Outcome {
    if l.get_sorted() {
        for (i, w) in l.windows(2).enumerate() {
            ensure!(
                w[0].logit >= w[1].logit,
                "marked sorted, but place {i} has {:?} before {:?}",
                w[0].logit,
                w[1].logit
            );
        }
    }
    if l.get_softmax() && !l.is_empty() {
        check_probs(l)?;
    }
    Ok(())
}

/// Every probability is the softmax of the present logits.
pub fn check_probs(l: &Logits) -> Outcome {
    let r = Ref::new(l);
    if !r.defined() || l.is_empty() {
        return Ok(());
    }
    let max = r.sorted[0] as f64;
    let sum: f64 = r.sorted.iter().rev().map(|x| (*x as f64 - max).exp()).sum();
    for x in l.iter() {
        let d = max - x.logit as f64;
        let want = (-d).exp() / sum;
        let rel = 3e-6 + 2e-7 * d.min(120.0) + 1.3e-7 * r.n() as f64;
        ensure!(
            (x.prob as f64 - want).abs() <= rel * want + 3e-45,
            "token {} with logit {:?} has probability {:?}, the softmax of the list is {want:e}",
            x.token_id,
            x.logit,
            x.prob
        );
    }
    Ok(())
}

/// Compare two lists bit by bit, including flags.
pub fn check_identical(a: &Logits, b: &Logits) -> Outcome {
    ensure!(a.len() == b.len(), "length {} against {}", a.len(), b.len());
    ensure!(a.get_sorted() == b.get_sorted(), "sorted flag {} against {}", a.get_sorted(), b.get_sorted());
    ensure!(a.get_softmax() == b.get_softmax(), "softmax flag {} against {}", a.get_softmax(), b.get_softmax());
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure!(
            x.token_id == y.token_id && same(x.logit, y.logit) && same(x.prob, y.prob),
            "place {i}: {x:?} against {y:?}"
        );
    }
    Ok(())
}

/// Is a cut after `kept` entries right for "smallest prefix whose mass reaches
/// (`strict`: exceeds) `p` and that has at least `min_keep` entries"?
pub fn check_mass_cut(cum: &[f64], kept: usize, p: f64, strict: bool, min_keep: usize, tol: f64) -> Outcome {
    let n = cum.len();
    if n == 0 {
        return Ok(());
    }
    let need = min_keep.max(1).min(n);
    ensure!(kept >= need, "kept {kept} of {n}, at least {need} are due");
    if p.is_nan() {
        ensure!(kept == n, "nothing reaches a NaN target, but {kept} of {n} were kept");
        return Ok(());
    }
    let reached = |c: f64, slack: f64| if strict { c > p - slack || (slack == 0.0 && c > p) } else { c >= p - slack };
    if kept < n {
        let c = cum[kept - 1];
        ensure!(
            reached(c, tol),
            "{kept} of {n} kept with mass {c}, which does not reach {p} (tolerance {tol:e})"
        );
    }
    if kept > need {
        let c = cum[kept - 2];
        let already = if strict { c > p + tol } else { c >= p + tol && (tol > 0.0 || c >= p) };
        ensure!(
            !already,
            "{kept} of {n} kept although {} already have mass {c}, target {p} (tolerance {tol:e})",
            kept - 1
        );
    }
    Ok(())
}
