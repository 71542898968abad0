//! C25: a token banned with -inf is never selected while another is available.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Step {
    l: LIn,
    /// Tokens the model itself rules out.
    model_bans: Vec<u16>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    bans: Vec<u16>,
    other: Vec<(u16, F)>,
    /// The optional parts, in the documented order.
    mid: Vec<S>,
    pick: S,
    steps: Vec<Step>,
    hist: Hist,
    seed: u64,
    grow: bool,
    /// The generator emits only these values.
    #[serde(default)]
    fixed: Vec<u64>,
    /// Where mirostat starts.
    #[serde(default)]
    mu: Option<F>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C25";
    const RULE: &'static str = "A chain in the documented order (-inf biases, then a random subset of penalties, top-K, tail free, typical, top-P, min-P, top-A, temperature, then greedy, random or mirostat) run on 1 to 5 lists with logits up to +-50 and further -inf entries, the history growing by what was picked, min_keep >= 1, mirostat now and then from any mu, one case in six with a generator that emits range extremes. Non-trivial: a banned and two or more free tokens, the banned one best before the ban in some step.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let small = || prop_oneof![4 => (-3.0f32..3.0).prop_map(F), 4 => (0.0f32..20.0).prop_map(F), 1 => dict::floats(-3.0, 20.0)];
        let keep = || prop_oneof![12 => 1usize..4, 3 => 1usize..40, 1 => dict::counts(1, 100)];
        let o = |s: BoxedStrategy<S>| gen::opt(s);
        let pens = (
            o((prop_oneof![4 => (1.0f32..2.0).prop_map(F), 4 => (1.0f32..30.0).prop_map(F), 1 => dict::floats(1.0, 30.0)], gen::last_n()).prop_map(|(penalty, last_n)| S::Rep { penalty, last_n }).boxed()),
            o((small(), small(), gen::last_n()).prop_map(|(freq, pres, last_n)| S::FreqPres { freq, pres, last_n }).boxed()),
            o((small(), small(), 2usize..5, 0usize..2, 0usize..3, gen::last_n())
                .prop_map(|(flat, stack, min_length, tolerance, max_merge, last_n)| S::SeqRep { flat, stack, min_length, tolerance, max_merge, last_n })
                .boxed()),
        );
        let frac = || prop_oneof![3 => (0.0f32..1.0).prop_map(F), 1 => (0.9f32..1.0).prop_map(F), 1 => proptest::sample::select(vec![F(0.0), F(1.0), F(0.95), F(0.5), F(-1.0), F(-1e-6), F(2.0)]), 1 => dict::floats(-1.0, 2.0)];
        let filters = (
            o((prop_oneof![9 => 0usize..60, 1 => dict::counts(0, 1000)], keep()).prop_map(|(k, min_keep)| S::TopK { k, min_keep }).boxed()),
            o((frac(), keep()).prop_map(|(z, min_keep)| S::TailFree { z, min_keep }).boxed()),
            o((frac(), keep()).prop_map(|(p, min_keep)| S::Typical { p, min_keep }).boxed()),
            o((frac(), keep()).prop_map(|(p, min_keep)| S::TopP { p, min_keep }).boxed()),
            o((frac(), keep()).prop_map(|(p, min_keep)| S::MinP { p, min_keep }).boxed()),
            o((frac(), (0.0f32..3.0).prop_map(F), keep()).prop_map(|(a1, a2, min_keep)| S::TopA { a1, a2, min_keep }).boxed()),
            o(prop_oneof![6 => (0.1f32..3.0).prop_map(F), 2 => (0.01f32..100.0).prop_map(F), 1 => dict::floats(0.01, 100.0)].prop_map(S::Temp).boxed()),
        );
        let mid = (pens, filters).prop_map(|((a, b, c), (d, e, f, g, h, i, j))| [a, b, c, d, e, f, g, h, i, j].into_iter().flatten().collect::<Vec<_>>());
        let value = prop_oneof![6 => (-50.0f32..50.0).prop_map(F), 4 => (-4.0f32..4.0).prop_map(F), 3 => (-6i32..7).prop_map(|i| F(i as f32)), 1 => Just(F(0.0)), 1 => dict::floats(-50.0, 50.0)];
        let vals = prop_oneof![
            6 => vec(value, 1..14).prop_map(Vals::Explicit),
            2 => (prop_oneof![9 => 1u32..150, 1 => dict::sizes(1, 1100)], any::<u64>(), (0.1f32..5.0)).prop_map(|(n, seed, d)| Vals::Expr { n, seed, shape: Shape::Normal(F(d)) }),
            1 => (1u32..150, any::<u64>(), (1u16..6), (0.1f32..2.0)).prop_map(|(n, seed, levels, s)| Vals::Expr { n, seed, shape: Shape::Levels { levels, step: F(s) } }),
            1 => (2u32..150, 0.2f32..2.5).prop_map(|(n, e)| Vals::Expr { n, seed: 0, shape: Shape::Zipf(F(e)) }),
        ];
        let lin = (vals, gen::prep(), 0u8..6).prop_map(|(vals, prep, stale)| LIn { vals, ids: Ids::Identity, prep, stale, again: 0 });
        let step = (lin, vec(any::<u16>(), 0..3)).prop_map(|(l, model_bans)| Step { l, model_bans });
        let tau = || prop_oneof![9 => (0.1f32..9.0).prop_map(F), 1 => dict::floats(0.1, 9.0)];
        let eta = || prop_oneof![9 => (0.01f32..1.0).prop_map(F), 1 => dict::floats(0.01, 1.0)];
        let pick = prop_oneof![
            1 => Just(S::Greedy),
            2 => Just(S::Rand),
            2 => (prop_oneof![9 => 2usize..40_000, 1 => dict::counts(2, 300_000)], tau(), eta()).prop_map(|(n_vocab, tau, eta)| S::Miro1 { n_vocab, tau, eta }),
            2 => (tau(), eta()).prop_map(|(tau, eta)| S::Miro2 { tau, eta }),
        ];
        // Extremes of the range, ending in an ordinary value (drawing may need
        // one to come to an end).
        let fixed = prop_oneof![
            5 => Just(vec![]),
            1 => vec(proptest::sample::select(vec![0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX << 32, u32::MAX as u64]), 1..4)
                .prop_map(|mut v| { v.push(0x1234_5678_9abc_def0); v }),
        ];
        let mu = gen::opt(prop_oneof![(-10.0f32..0.5).prop_map(F), (0.0f32..20.0).prop_map(F)].boxed());
        let fixed = (fixed, mu);
        (vec(0u16..15, 0..8), vec((0u16..15, prop_oneof![4 => gen::amount().prop_map(|a| F(a.0.clamp(-20.0, 20.0))), 1 => (20.0f32..20000.0).prop_map(F)]), 0..3), mid, pick, gen::seq(step, 1..6, 6..80, 300), gen::hist(), any::<u64>(), any::<bool>(), fixed)
            .prop_map(|(bans, other, mid, pick, steps, hist, seed, grow, (fixed, mu))| Case { bans, other, mid, pick, steps, hist, seed, grow, fixed, mu })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let ids: Vec<u32> = (0..15).collect();
        let banned: std::collections::HashSet<u32> = c.bans.iter().map(|b| *b as u32).collect();
        let mut bias: Vec<(u32, f32)> = banned.iter().map(|b| (*b, f32::NEG_INFINITY)).collect();
        bias.sort_by_key(|b| b.0);
        for (t, v) in &c.other {
            if !bias.iter().any(|b| b.0 == *t as u32) {
                bias.push((*t as u32, v.0));
            }
        }
        if c.seed % 2 == 0 {
            bias.reverse();
        }
        let mut chain = SamplerChain::new();
        chain += SampleFlatBias::new(bias);
        c.mid.iter().for_each(|s| chain += s.boxed(&ids));
        match (&c.pick, c.mu) {
            (S::Miro1 { n_vocab, tau, eta }, Some(mu)) => chain += SampleMirostat1::new(*n_vocab, tau.0, eta.0).mu(mu.0),
            (S::Miro2 { tau, eta }, Some(mu)) => chain += SampleMirostat2::new(tau.0, eta.0).mu(mu.0),
            _ => chain += c.pick.boxed(&ids),
        }
        let hist = Some(c.hist.expand(&ids));
        let rng: Box<dyn rand::RngCore + Send + Sync> = match c.fixed.is_empty() {
            true => Box::new(<rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(c.seed)),
            false => Box::new(res::Fixed(c.fixed.clone(), 0)),
        };
        let mut res = SimpleSamplerResources::new(Some(rng), hist);
        for (i, st) in c.steps.iter().enumerate() {
            let mut l = st.l.build();
            let best = l.iter().fold(None, |m: Option<Logit>, x| if m.as_ref().is_some_and(|m| m.logit >= x.logit) { m } else { Some(x.clone()) });
            if !st.model_bans.is_empty() {
                let n = l.len();
                for b in &st.model_bans {
                    l[*b as usize % n].logit = f32::NEG_INFINITY;
                }
                l.set_sorted(false);
                l.set_softmax(false);
            }
            let free: Vec<u32> = l.iter().filter(|x| x.logit.is_finite() && !banned.contains(&x.token_id)).map(|x| x.token_id).collect();
            if free.is_empty() {
                // Nothing is promised, but later steps still count.
                let _ = chain.sample_token(&mut res, &mut l).is_ok();
                cov.label("everything banned");
                continue;
            }
            let n = l.len();
            let got = chain.sample_token(&mut res, &mut l);
            match got {
                Ok(Some(t)) => {
                    ensure!(!banned.contains(&t), "step {i}: selected banned token {t}; free were {free:?}");
                    ensure!(free.contains(&t), "step {i}: selected token {t}, whose logit is -inf; free were {free:?}");
                    if c.grow {
                        res.with_last_tokens_mut(&mut |h| h.push(t)).map_err(|e| e.to_string())?;
                    }
                }
                other => return Err(format!("step {i}: {other:?} although {} of {n} tokens are available", free.len())),
            }
            let temptation = best.is_some_and(|b| !free.contains(&b.token_id));
            cov.nontrivial_if(temptation && free.len() > 1);
            cov.label_if(temptation, "best token banned");
            cov.label_if(l.len() < n, "filtered");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
