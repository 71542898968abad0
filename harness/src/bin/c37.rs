//! C37: a token at -inf might as well not be in the list.
use harness::prelude::*;
use harness::run::splitmix;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    lists: Vec<Vals>,
    prep: Vec<(Prep, u8)>,
    /// Numbering of all tokens, banned ones included.
    ids: Ids,
    samplers: Vec<S>,
    hist: Hist,
    /// Places (and there how many) of the banned tokens; the last is added to
    /// all lists.
    bans: Vec<(u16, u16)>,
    seed: u64,
}

#[derive(Debug, Clone)]
struct Out {
    list: Vec<Logit>,
    token: Option<u32>,
    failed: bool,
}

impl Out {
    /// What is left of the tokens that were not banned.
    fn gist(&self) -> (Vec<u32>, Option<u32>, bool) {
        (self.list.iter().filter(|l| l.logit != f32::NEG_INFINITY).map(|l| l.token_id).collect(), self.token, self.failed)
    }

    /// The same without the names, in no particular order.
    fn values(&self) -> (Vec<u32>, Option<u32>, bool) {
        let mut v: Vec<u32> = self.list.iter().filter(|l| l.logit != f32::NEG_INFINITY).map(|l| l.logit.to_bits()).collect();
        v.sort_unstable();
        let of = self.token.and_then(|t| self.list.iter().find(|l| l.token_id == t)).map(|l| l.logit.to_bits());
        (v, of, self.failed)
    }
}

/// After each sampler of each list.
type Outs = Vec<Vec<Out>>;

/// The first place where two runs differ.
fn differ(a: &Outs, b: &Outs, upto: usize) -> bool {
    a.iter().zip(b).take(upto + 1).any(|(x, y)| x.len() != y.len() || x.iter().zip(y).any(|(x, y)| x.gist() != y.gist()))
}

impl Case {
    fn run(&self, banned: bool, jitter: Option<u64>) -> Outs {
        let lists: Vec<Vec<f32>> = self.lists.iter().map(Vals::expand).collect();
        let extra: usize = self.bans.iter().map(|b| b.1 as usize).sum();
        let longest = lists.iter().map(Vec::len).max().unwrap_or(0) + extra;
        let names = LIn { vals: Vals::Explicit(vec![]), ids: self.ids, prep: Prep::Raw, stale: 0, again: 0 }.ids(longest);
        let mut samplers: Vec<Box<dyn Sampler>> = self.samplers.iter().map(|s| jitter.map_or_else(|| s.clone(), |j| s.nudged(j)).boxed(&names)).collect();
        let mut res = res::simple(Some(self.seed), Some(self.hist.expand(&names)));
        let mut outs = vec![];
        for (i, vals) in lists.iter().enumerate() {
            let (prep, stale) = self.prep[i % self.prep.len()];
            let prob = [0.0, 0.7, -3.0, 1e9, f32::NAN][stale as usize % 5];
            // The tokens first, banned ones have the names after theirs.
            let mut items: Vec<(u32, f32)> = vals
                .iter()
                .enumerate()
                .map(|(t, x)| {
                    let x = match jitter {
                        Some(j) if x.is_finite() => x + (x.abs() + 1.0) * 3e-7 * ((splitmix(&mut (j ^ x.to_bits() as u64)) % 3) as f32 - 1.0),
                        _ => *x,
                    };
                    (names[t], x)
                })
                .collect();
            if banned {
                let mut next = vals.len();
                for (at, count) in &self.bans {
                    for _ in 0..*count {
                        let at = *at as usize % (items.len() + 1);
                        items.insert(at, (names[next], f32::NEG_INFINITY));
                        next += 1;
                    }
                }
            }
            let mut l = Logits::default();
            l.extend(items.into_iter().map(|(token_id, logit)| Logit { token_id, logit, prob }));
            match prep {
                Prep::Raw => (),
                Prep::Sorted => drop(l.ensure_sorted().is_ok()),
                Prep::Softmax => drop(l.ensure_softmax().is_ok()),
                Prep::SoftmaxShuffled => {
                    // The same order for the tokens that are not banned.
                    drop(l.ensure_softmax().is_ok());
                    l.reverse();
                    l.set_sorted(false);
                }
            }
            let mut steps = vec![];
            for s in &mut samplers {
                let r = s.sample_token(&mut res, &mut l);
                steps.push(Out { list: l.to_vec(), token: r.as_ref().ok().copied().flatten(), failed: r.is_err() });
                if r.is_err() {
                    break;
                }
            }
            if let Some(t) = steps.last().and_then(|o| o.token) {
                let _ = res.with_last_tokens_mut(&mut |h| h.push(t));
            }
            outs.push(steps);
        }
        outs
    }
}

struct P;
impl Prop for P {
    const ID: &'static str = "C37";
    const RULE: &'static str = "One to three lists through a chain of biases, penalties, temperatures, top-K, top-P, min-P, top-A, locally typical, greedy, random and mirostat 2 with and without 1 to 600 further tokens at -inf in any place of the list. A mismatch counts only if it is not within reach of rounding, decided by re-running with logits and thresholds changed by some 1e-7. Where the order of equal logits is another one, only the values are compared and the case ends. Non-trivial: two or more tokens that are not banned, and tokens dropped or picked.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let keep = || prop_oneof![6 => 0usize..4, 1 => gen::count()];
        let filter = || gen::s_filter(keep().boxed()).prop_map(|s| match s {
            // Tail free sees them.
            S::TailFree { z, min_keep } => S::TopP { p: z, min_keep },
            s => s,
        });
        let pick = || gen::s_pick().prop_map(|s| match s {
            // Mirostat 1 sees them.
            S::Miro1 { tau, eta, .. } => S::Miro2 { tau, eta },
            s => s,
        });
        let any_s = prop_oneof![1 => gen::s_bias(true), 3 => gen::s_penalty(), 6 => filter(), 2 => gen::temp().prop_map(S::Temp), 2 => pick()];
        let documented = (gen::opt(gen::s_bias(true)), vec(gen::s_penalty(), 0..3), vec(filter(), 0..4), gen::opt(gen::temp().prop_map(S::Temp).boxed()), pick())
            .prop_map(|(a, b, c, d, e)| a.into_iter().chain(b).chain(c).chain(d).chain([e]).collect::<Vec<_>>());
        let bans = (vec((any::<u16>(), 1u16..4), 0..4), any::<u16>(), prop_oneof![8 => 1u16..6, 2 => 6u16..60, 1 => 60u16..600]).prop_map(|(mut v, at, n)| {
            v.push((at, n));
            v
        });
        let vals = prop_oneof![
            700 => vec(prop_oneof![4 => (-20.0f32..20.0).prop_map(F), 3 => (-8i32..9).prop_map(|i| F(i as f32 * 0.5)), 2 => (-1.5f32..1.5).prop_map(F)], 1..14).prop_map(Vals::Explicit),
            300 => gen::dyadic(),
            300 => (1u32..150, any::<u64>(), gen::shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
            5 => (500u32..6000, any::<u64>(), gen::shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
            1 => (gen::size_vocab(), any::<u64>(), gen::shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
        ];
        (
            gen::seq(vals.boxed(), 1..4, 4..30, 300),
            vec((gen::prep(), 0u8..5), 1..3),
            gen::ids(),
            prop_oneof![1 => vec(any_s, 1..6), 2 => documented],
            gen::hist(),
            bans,
            any::<u64>(),
        )
            .prop_map(|(lists, prep, ids, samplers, hist, bans, seed)| Case { lists, prep, ids, samplers, hist, bans, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let a = c.run(false, None);
        let b = c.run(true, None);
        for (i, (xs, ys)) in a.iter().zip(&b).enumerate() {
            for (j, (x, y)) in xs.iter().zip(ys).enumerate() {
                // With every token banned any of them is as good as the others.
                if x.gist().0.is_empty() || x.list.iter().any(|l| l.logit.is_nan() || l.logit == f32::INFINITY) {
                    cov.label("nothing but banned tokens");
                    return Ok(());
                }
                let left = y.list.iter().filter(|l| l.logit != f32::NEG_INFINITY);
                let same_values = || {
                    x.list.iter().filter(|l| l.logit != f32::NEG_INFINITY).zip(left).all(|(p, q)| {
                        p.logit.to_bits() == q.logit.to_bits() && (p.prob.to_bits() == q.prob.to_bits() || p.prob.is_nan() && q.prob.is_nan() || close(p.prob, q.prob as f64, 1e-5, 1e-30))
                    })
                };
                if x.gist() != y.gist() || !same_values() {
                    // Sorting and greedy may choose among equals.
                    let reordered = x.gist().0 != y.gist().0 || (x.token != y.token && c.samplers[j] == S::Greedy);
                    if reordered && x.values() == y.values() {
                        cov.label("another order of equals");
                        return Ok(());
                    }
                    // So low that they have no probability either: then they
                    // rank with the banned ones for locally typical.
                    let logits = || x.list.iter().map(|l| l.logit).filter(|l| l.is_finite());
                    if matches!(c.samplers[j], S::Typical { .. }) && logits().any(|l| logits().any(|m| m - l > 85.0)) {
                        cov.label("underflow");
                        return Ok(());
                    }
                    let fragile = (0..24).any(|j| differ(&c.run(false, Some(c.seed ^ j)), &a, i));
                    ensure!(
                        fragile,
                        "list {i}, sampler {j}: {:?}; with banned tokens added {:?} (left, token, failed); {:?} and {:?}",
                        x.gist(), y.gist(), x.list, y.list
                    );
                    cov.label("within rounding");
                    return Ok(());
                }
                if x.failed {
                    cov.label("failed");
                    return Ok(());
                }
                let n = c.lists[i].expand().iter().filter(|x| x.is_finite()).count();
                cov.nontrivial_if(n > 1 && (x.token.is_some() || x.gist().0.len() < n));
                cov.label_if(x.gist().0.len() < n, "filtered");
                cov.label_if(y.list.len() > y.gist().0.len(), "banned tokens left in the list");
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
