//! C12: the repetition penalty hits each token of the window exactly once.
use harness::prelude::*;
use std::collections::{HashMap, HashSet};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    penalty: F,
    last_n: usize,
    near: Option<i8>,
    steps: Vec<(LIn, Hist)>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C12";
    const RULE: &'static str = "Penalties around and above 1, last_n arbitrary or near the history length, one to four (list, history) steps with one sampler object. Non-trivial: an enabled penalty with a token of the list inside the window, one outside it, and a history longer than the window or with a repeated token.";
    const QUICK: u64 = 80_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let pen = prop_oneof![
            1 => dict::floats(-2.0, 1e6),
            7 => (1.0f32..3.0).prop_map(F),
            1 => (0.0f32..1.2).prop_map(F),
            1 => proptest::sample::select(vec![1.0f32, 1.000_000_1, 0.999_999_94, 1.1, 2.0, 50.0, 1e6, 0.0, -1.0, -2.0]).prop_map(F),
        ];
        (pen, gen::last_n(), gen::opt((-2i8..3).boxed()), gen::seq(gen::lin_hist(300), 1..5, 5..80, 300))
            .prop_map(|(penalty, last_n, near, steps)| Case { penalty, last_n, near, steps })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let pen = c.penalty.0;
        let mut last_n = c.last_n;
        if let Some(d) = c.near {
            let (l, h) = &c.steps[0];
            let ids: Vec<u32> = l.build().iter().map(|x| x.token_id).collect();
            last_n = (h.expand(&ids).len() as i64 + d as i64).max(0) as usize;
        }
        let mut s = SampleRepetition::default().penalty(pen).last_n(last_n);
        for (i, (spec, hist)) in gen::cycled(&c.steps, c.steps.first().map_or(0, |s| s.0.again), |s| { let (l, h) = (s.0.vals.len(), s.1.len()); l + h + l * h / 50 }).enumerate() {
            let mut l = spec.build();
            let before = l.to_vec();
            let ids: Vec<u32> = before.iter().map(|x| x.token_id).collect();
            let mut h = hist.expand(&ids);
            // Cost is length times window.
            h.drain(..h.len().saturating_sub(1_000_000_000 / ids.len().max(1)));
            let win: HashSet<u32> = h[h.len() - last_n.min(h.len())..].iter().copied().collect();
            let mut res = res::simple(None, Some(h.clone()));
            s.sample(&mut res, &mut l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(l.len() == before.len(), "step {i}: {} tokens became {}", before.len(), l.len());
            let mut after: HashMap<u32, f32> = l.iter().map(|x| (x.token_id, x.logit)).collect();
            let on = pen > 1.0;
            let (mut hit, mut miss) = (false, false);
            for b in &before {
                let Some(a) = after.remove(&b.token_id) else {
                    return Err(format!("step {i}: token {} is gone", b.token_id));
                };
                if on && win.contains(&b.token_id) {
                    hit = true;
                    let x = b.logit as f64;
                    let want = if b.logit <= 0.0 { x * pen as f64 } else { x / pen as f64 };
                    ensure!(
                        close(a, want, 1e-6, 0.0),
                        "step {i}: penalty {pen:?} last_n {last_n}: token {} went from {:?} to {a:?}, expected {want}",
                        b.token_id, b.logit
                    );
                } else {
                    miss = true;
                    ensure!(
                        a.to_bits() == b.logit.to_bits(),
                        "step {i}: penalty {pen:?} last_n {last_n}: token {} is not in the window but went from {:?} to {a:?}",
                        b.token_id, b.logit
                    );
                }
            }
            check_flags(&l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(res::history(&res).as_ref() == Some(&h), "step {i}: the history changed");
            cov.nontrivial_if(hit && miss && (h.len() > last_n || h.len() > win.len()));
            cov.label_if(on && h.len() > last_n, "history longer than window");
            cov.label_if(!on, "disabled");
            cov.label_if(on && win.len() > 500, "over 500 different tokens in the window");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
