//! C19: mirostat 1 keeps k tokens as estimated in its paper and steers mu.
use harness::{miro::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    n_vocab: usize,
    m: Option<usize>,
    tau: F,
    eta: F,
    steps: Vec<Step>,
    seed: u64,
    freq: u16,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

/// Zipf exponent from the `m` best, and the error f32 may make in it.
fn estimate(r: &Ref, m: usize) -> Option<(f64, f64)> {
    let pairs = (m - 1).min(r.n() - 1);
    let (mut tb, mut tt, mut err) = (0f64, 0f64, 0f64);
    for i in 0..pairs {
        if r.p[i + 1] < 1e-36 {
            return None;
        }
        let t = ((i as f64 + 2.0) / (i as f64 + 1.0)).ln();
        let b = if r.exact { (r.p[i] / r.p[i + 1]).ln() } else { r.sorted[i] as f64 - r.sorted[i + 1] as f64 };
        tb += t * b;
        tt += t * t;
        if b > 0.0 {
            err += t * (4e-7 * (1.0 + (r.sorted[0] as f64 - r.sorted[i + 1] as f64) * 0.3) + 2e-7 * b);
        }
        err += 2e-7 * pairs as f64 * t * b.abs() * 0.2;
    }
    (tt > 0.0).then(|| (tb / tt, err / tt + 1e-6 * tb / tt))
}

fn k_of(s: f64, mu: f64, n_vocab: f64) -> f64 {
    let e = s - 1.0;
    if e.abs() < 1e-12 {
        return (2f64.powf(mu) / n_vocab.ln()).powf(1.0 / s);
    }
    (e * 2f64.powf(mu) / (1.0 - n_vocab.powf(-e))).powf(1.0 / s)
}

struct P;
impl Prop for P {
    const ID: &'static str = "C19";
    const RULE: &'static str = "Up to eight steps (lists incl. Zipf-shaped and bent ones, new tau / mu / eta, missing generator) with one sampler, n_vocab 0 to 152000, m 1 to 6000 or default; k must lie in the range the f64 estimate takes within the f32 error of s. Non-trivial: a list cut to 2..n-1 tokens where the range admits at most 2 values or 10% of k.";
    const QUICK: u64 = 30_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let n_vocab = prop_oneof![
            6 => 2usize..2000,
            2 => proptest::sample::select(vec![32_000usize, 50_257, 128_256, 151_936]),
            1 => 0usize..3,
            1 => dict::counts(2, 300_000),
        ];
        // Zipf-like lists are what the estimate is made for.
        let zipf = (3u32..400, (0.3f32..2.5), gen::ids(), gen::prep(), 0u8..6).prop_map(|(n, e, ids, prep, stale)| {
            Step::Run(LIn { vals: Vals::Expr { n, seed: 1, shape: Shape::Zipf(F(e)) }, ids, prep, stale, again: 0 })
        });
        // Neither is the far part of a long list like the near one.
        let bent = (prop_oneof![4 => 20u32..700, 1 => 700u32..6000], 0.3f32..2.5, any::<u16>(), 0.2f32..8.0, gen::ids(), gen::prep(), 0u8..6).prop_map(
            |(n, e, at, then, ids, prep, stale)| {
                let at = (at as u32 % n) as u16;
                Step::Run(LIn { vals: Vals::Expr { n, seed: 1, shape: Shape::Bent { e: F(e), at, then: F(then) } }, ids, prep, stale, again: 0 })
            },
        );
        let zipf = prop_oneof![3 => zipf, 1 => bent];
        let st = (steps(2), vec(zipf, 0..3), any::<bool>()).prop_map(|(mut a, b, front)| {
            if front {
                let mut b = b;
                b.append(&mut a);
                b
            } else {
                a.extend(b);
                a
            }
        });
        (
            n_vocab,
            gen::opt(prop_oneof![9 => 2usize..200, 3 => 1usize..5, 2 => 200usize..6000, 1 => dict::counts(2, 5000)].boxed()),
            prop_oneof![5 => 0.1f32..9.0, 1 => -1.0f32..0.2].prop_map(F),
            prop_oneof![4 => 0.0f32..1.5, 1 => Just(0.1f32)].prop_map(F),
            st,
            any::<u64>(),
            prop_oneof![40 => Just(0u16), 1 => 500u16..3000],
            gen::again(),
        )
            .prop_map(|(n_vocab, m, tau, eta, steps, seed, freq, again)| Case { n_vocab, m, tau, eta, steps, seed, freq, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (mut tau, mut eta) = (c.tau.0, c.eta.0);
        let mut s = if c.seed % 2 == 0 {
            SampleMirostat1::new(c.n_vocab, tau, eta)
        } else {
            SampleMirostat1::default().eta(eta).tau(tau).n_vocab(c.n_vocab)
        };
        if let Some(m) = c.m {
            s = s.m(m);
        }
        let m = c.m.unwrap_or(100);
        let mut res = res::simple(Some(c.seed), None);
        let m0 = get(&s, "mu")?;
        ensure!(close(m0 as f32, 2.0 * tau as f64, 1e-6, 0.0), "mu starts at {m0}, tau is {tau}");
        let size = |s: &Step| match s {
            Step::Run(l) | Step::NoRng(l) => l.vals.len(),
            _ => 1,
        };
        for (i, step) in gen::cycled(&c.steps, c.again, size).enumerate() {
            let ctx = |e: String| format!("step {i}, n_vocab {} m {m}: {e}", c.n_vocab);
            let mu = get(&s, "mu")?;
            match step {
                Step::SetTau(t) => {
                    tau = t.0;
                    set(&mut s, "tau", tau)?;
                    let m = get(&s, "mu")?;
                    ensure!(close(m as f32, 2.0 * tau as f64, 1e-6, 0.0), "step {i}: tau set to {tau}, mu is {m}");
                }
                Step::SetMu(m) => {
                    set(&mut s, "mu", m.0)?;
                    ensure!(get(&s, "mu")? == m.0 as f64, "step {i}: mu set to {m:?}");
                }
                Step::MuAt(at, _) => {
                    // Spread mu over the range where k is neither 1 nor n.
                    set(&mut s, "mu", *at as f32 % 1500.0 / 100.0)?;
                }
                Step::SetEta(e) => {
                    eta = e.0;
                    set(&mut s, "eta", eta)?;
                    ensure!(get(&s, "mu")? == mu, "step {i}: setting eta changed mu");
                }
                Step::NoRng(spec) => {
                    let mut l = spec.build();
                    let empty = l.is_empty();
                    let r = s.sample(&mut (), &mut l).map(|_| ());
                    ensure!(r.is_ok() == empty, "step {i}: without generator: {r:?}");
                    ensure!(s.sampled_token_id().is_none(), "step {i}: reports a token without having picked one");
                    ensure!(get(&s, "mu")? == mu, "step {i}: mu changed without a pick");
                }
                Step::Run(spec) => {
                    let mut l = spec.build();
                    let list = l.clone();
                    let r = Ref::for_spec(&l, spec);
                    let n = r.n();
                    let out = s.sample(&mut res, &mut l).map(|_| ()).map_err(|e| e.to_string());
                    let after = get(&s, "mu")?;
                    let token = s.sampled_token_id();
                    if n == 0 {
                        out.map_err(ctx)?;
                        ensure!(token.is_none() && after == mu, "step {i}: empty list: token {token:?}, mu {mu} became {after}");
                        continue;
                    }
                    if c.n_vocab == 0 {
                        ensure!(out.is_err() && token.is_none(), "step {i}: picked {token:?} without n_vocab ({out:?})");
                        ensure!(after == mu, "step {i}: mu changed without a pick");
                        continue;
                    }
                    if !r.defined() {
                        check_subset(&r.before, &l).map_err(ctx)?;
                        set(&mut s, "tau", tau)?;
                        continue;
                    }
                    out.map_err(ctx)?;
                    check_top(&r, &l).map_err(ctx)?;
                    check_flags(&l).map_err(ctx)?;
                    let k = l.len();
                    ensure!(k >= 1, "step {i}: nothing left of {n}");
                    if n > 1 && m > 1 && c.n_vocab > 1 {
                        if let Some((sh, ds)) = estimate(&r, m) {
                            // k is monotone in neither s nor everywhere smooth:
                            // take the extremes over the error interval.
                            let e = (sh - 1.0).abs();
                            let rel = 1e-5 + 4e-7 / (e * (c.n_vocab as f64).ln()).max(1e-9) + 2e-7 * mu.abs();
                            let (mut lo, mut hi) = (f64::INFINITY, 0f64);
                            for j in -8..=8 {
                                let s = (sh + ds * j as f64 / 8.0).max(0.0);
                                let k = k_of(s, mu, c.n_vocab as f64);
                                if k.is_nan() {
                                    (lo, hi) = (0.0, f64::INFINITY);
                                    break;
                                }
                                let r = rel / s.max(1e-9);
                                lo = lo.min(k * (1.0 - r).max(0.0));
                                hi = hi.max(k * (1.0 + r));
                            }
                            // 2^mu has to fit in an f32 on the way.
                            if mu.abs() + (e + ds).log2().max(0.0) > 125.0 {
                                (lo, hi) = (lo.min(1.0), f64::INFINITY);
                            }
                            let lo = (lo.floor().max(1.0) as usize).min(n);
                            let hi = (hi.floor().max(1.0) as usize).min(n);
                            if e > 1e-3 {
                                ensure!(
                                    (lo..=hi).contains(&k),
                                    "step {i}: n_vocab {} m {m} mu {mu}: {k} of {n} kept, {lo} to {hi} expected (s = {sh} +- {ds:e})",
                                    c.n_vocab
                                );
                                cov.nontrivial_if(k > 1 && k < n && (hi - lo) as f64 <= (0.1 * k as f64).max(1.0));
                                cov.label_if(k > 1 && k < n && m > 512 && n > 512 && (hi - lo) as f64 <= (0.1 * k as f64).max(1.0), "over 512 tokens estimate k");
                                cov.label_if(hi > lo, "k has a range");
                                cov.label_if(k > 1 && k < n, "cut to more than one");
                                cov.label_if(k > 1 && k < n && n > m, "list longer than m");
                            }
                        } else {
                            cov.label("zero probabilities among the m best");
                        }
                    }
                    check_pick(&r, &l, token, (mu, after), tau as f64, eta as f64).map_err(ctx)?;
                    if c.freq > 0 && n < 300 && i < c.steps.len() {
                        cov.label("frequencies compared");
                        let mut f = s.clone();
                        set(&mut f, "mu", mu as f32)?;
                        check_frequencies(&f, &list, &r, k, c.seed ^ i as u64, c.freq as usize).map_err(ctx)?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
