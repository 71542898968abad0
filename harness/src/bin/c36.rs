//! C36: only the differences between logits matter to filters and selection.
use harness::prelude::*;
use harness::run::splitmix;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    /// Logits in quarters; None is `-inf`.
    lists: Vec<Vec<Option<i16>>>,
    prep: Vec<(Prep, u8)>,
    ids: Ids,
    samplers: Vec<S>,
    hist: Hist,
    /// Quarters added to every logit.
    shift: i32,
    seed: u64,
}

#[derive(Debug, Clone)]
struct Out {
    list: Vec<Logit>,
    token: Option<u32>,
    failed: bool,
    /// Everything is still exact.
    exact: bool,
}

impl Out {
    fn gist(&self) -> (Vec<u32>, Option<u32>, bool) {
        (self.list.iter().map(|l| l.token_id).collect(), self.token, self.failed)
    }
}

impl Case {
    fn run(&self, shift: i32, jitter: Option<u64>) -> Vec<Out> {
        let longest = self.lists.iter().map(Vec::len).max().unwrap_or(0);
        let spec = |i: usize| LIn {
            vals: Vals::Explicit(
                self.lists[i]
                    .iter()
                    .map(|q| {
                        let x = q.map_or(f32::NEG_INFINITY, |q| (q as i32 + shift) as f32 * 0.25);
                        // The same for equal logits.
                        F(match jitter {
                            Some(j) if x.is_finite() => x + (x.abs() + 1.0) * 3e-7 * ((splitmix(&mut (j ^ x.to_bits() as u64)) % 3) as f32 - 1.0),
                            _ => x,
                        })
                    })
                    .collect(),
            ),
            ids: self.ids,
            prep: self.prep[i % self.prep.len()].0,
            stale: self.prep[i % self.prep.len()].1,
            again: 0,
        };
        let ids = LIn { vals: Vals::Explicit(vec![]), ids: self.ids, prep: Prep::Raw, stale: 0, again: 0 }.ids(longest);
        let mut samplers: Vec<Box<dyn Sampler>> = self.samplers.iter().map(|s| jitter.map_or_else(|| s.clone(), |j| s.nudged(j)).boxed(&ids)).collect();
        let mut res = res::simple(Some(self.seed), Some(self.hist.expand(&ids)));
        let mut outs = vec![];
        for i in 0..self.lists.len() {
            let mut l = spec(i).build();
            let (mut token, mut failed, mut exact) = (None, false, true);
            for s in &mut samplers {
                match s.sample_token(&mut res, &mut l) {
                    Ok(t) => token = t,
                    Err(_) => {
                        (token, failed) = (None, true);
                        break;
                    }
                }
                // Multiples of 2^-8, far from the end of the 24 bits.
                exact &= l.iter().all(|x| x.logit == f32::NEG_INFINITY || (x.logit.abs() < 16384.0 && (x.logit * 256.0).fract() == 0.0));
            }
            if let Some(t) = token {
                let _ = res.with_last_tokens_mut(&mut |h| h.push(t));
            }
            outs.push(Out { list: l.to_vec(), token, failed, exact });
        }
        outs
    }
}

struct P;
impl Prop for P {
    const ID: &'static str = "C36";
    const RULE: &'static str = "One to three lists with logits, biases and penalties in quarters and temperatures that are powers of two (so that adding a constant is exact) through a chain without the repetition penalty, then the same with a constant added to every logit. A mismatch counts only if it is not within reach of rounding, decided by re-running with logits and thresholds changed by some 1e-7. Non-trivial: a shift other than zero, three or more entries, and tokens dropped or picked.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let q = prop_oneof![12 => (-80i16..81).prop_map(Some), 4 => (-12i16..13).prop_map(Some), 1 => Just(None), 1 => (-400i16..401).prop_map(Some)];
        let list = prop_oneof![640 => vec(q.clone(), 0..14), 160 => vec(q.clone(), 14..60), 80 => vec(q.clone(), 60..160), 2 => vec(q, 500..3000)];
        let quarter = || (-12i32..13).prop_map(|i| F(i as f32 * 0.25));
        let keep = || prop_oneof![6 => 0usize..4, 1 => gen::count()];
        let pow2 = || proptest::sample::select(vec![0.25f32, 0.5, 1.0, 2.0, 4.0, 0.0]).prop_map(|t| S::Temp(F(t)));
        let bias = || {
            vec((0u16..40, prop_oneof![5 => quarter(), 1 => Just(F(f32::NEG_INFINITY))]), 0..5).prop_map(|mut b| {
                let mut seen = std::collections::HashSet::new();
                b.retain(|(t, _)| seen.insert(*t));
                S::FlatBias(b)
            })
        };
        let pen = || {
            prop_oneof![
                (quarter(), quarter(), gen::last_n()).prop_map(|(freq, pres, last_n)| S::FreqPres { freq, pres, last_n }),
                (quarter(), quarter(), 0usize..6, 0usize..3, 0usize..4, gen::last_n()).prop_map(|(flat, stack, min_length, tolerance, max_merge, last_n)| {
                    S::SeqRep { flat, stack, min_length, tolerance, max_merge, last_n: last_n.min(200) }
                }),
            ]
        };
        let any_s = prop_oneof![1 => bias(), 2 => pen(), 6 => gen::s_filter(keep().boxed()), 2 => pow2(), 2 => gen::s_pick()];
        let documented = (gen::opt(bias().boxed()), vec(pen(), 0..3), vec(gen::s_filter(keep().boxed()), 0..4), gen::opt(pow2().boxed()), gen::s_pick())
            .prop_map(|(a, b, c, d, e)| a.into_iter().chain(b).chain(c).chain(d).chain([e]).collect::<Vec<_>>());
        let shift = prop_oneof![4 => -80i32..81, 2 => -400i32..401, 1 => -16_000i32..16_001, 1 => proptest::sample::select(vec![-1i32, 1, 4, -4, 0])];
        (
            gen::seq(list.boxed(), 1..4, 4..30, 300),
            vec((gen::prep(), 0u8..6), 1..3),
            gen::ids(),
            prop_oneof![1 => vec(any_s, 1..6), 2 => documented],
            gen::hist(),
            shift,
            any::<u64>(),
        )
            .prop_map(|(lists, prep, ids, samplers, hist, shift, seed)| Case { lists, prep, ids, samplers, hist, shift, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let a = c.run(0, None);
        let b = c.run(c.shift, None);
        let by: f64 = c
            .samplers
            .iter()
            .fold(c.shift as f64 * 0.25, |d, s| if let S::Temp(t) = s { if t.0 == 0.0 { d } else { d / t.0 as f64 } } else { d });
        let mut compared = 0;
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            if !x.exact || !y.exact {
                cov.label("not exact");
                break;
            }
            let probs = || x.list.iter().zip(&y.list).all(|(p, q)| close(p.prob, q.prob as f64, 1e-5, 1e-30) || p.prob.to_bits() == q.prob.to_bits());
            if x.gist() != y.gist() || !probs() {
                let fragile = (0..24).any(|j| c.run(0, Some(c.seed ^ j)).iter().zip(&a).take(i + 1).any(|(x, y)| x.gist() != y.gist()));
                ensure!(
                    fragile,
                    "list {i}: {:?}; with {} added to every logit {:?} (left, token, failed); probabilities {:?} and {:?}",
                    x.gist(), c.shift as f64 * 0.25, y.gist(),
                    x.list.iter().map(|l| l.prob).collect::<Vec<_>>(), y.list.iter().map(|l| l.prob).collect::<Vec<_>>()
                );
                cov.label("within rounding");
                break;
            }
            if x.failed {
                cov.label("failed");
                break;
            }
            for (p, q) in x.list.iter().zip(&y.list) {
                ensure!(
                    p.logit == q.logit && p.logit == f32::NEG_INFINITY || q.logit as f64 - p.logit as f64 == by,
                    "list {i}: token {} has logit {:?}, with {} added to every logit {:?}, which is not {by} more",
                    p.token_id, p.logit, c.shift as f64 * 0.25, q.logit
                );
            }
            compared += 1;
            let n = c.lists[i].len();
            cov.nontrivial_if(n > 2 && c.shift != 0 && (x.token.is_some() || x.list.len() < n));
            cov.label_if(x.list.len() < n, "filtered");
        }
        cov.label_if(compared > 1, "several lists");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
