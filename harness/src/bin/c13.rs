//! C13: frequency and presence penalties count occurrences in the window.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    freq: F,
    pres: F,
    last_n: usize,
    near: Option<i8>,
    steps: Vec<(LIn, Hist)>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C13";
    const RULE: &'static str = "Finite penalties of either sign, last_n arbitrary or near the history length, one to four (list, history) steps with one sampler object, counts up to several hundred. Non-trivial: an enabled penalty with a token that occurs at least twice in the window and one that does not occur.";
    const QUICK: u64 = 80_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let z = prop_oneof![4 => gen::amount(), 1 => Just(F(0.0)), 1 => Just(F(-0.0))].boxed();
        (z.clone(), z, gen::last_n(), gen::opt((-2i8..3).boxed()), gen::seq(gen::lin_hist(300), 1..5, 5..80, 300))
            .prop_map(|(freq, pres, last_n, near, steps)| Case { freq, pres, last_n, near, steps })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (f, p) = (c.freq.0, c.pres.0);
        let mut last_n = c.last_n;
        if let Some(d) = c.near {
            let (l, h) = &c.steps[0];
            let ids: Vec<u32> = l.build().iter().map(|x| x.token_id).collect();
            last_n = (h.expand(&ids).len() as i64 + d as i64).max(0) as usize;
        }
        let mut s = SampleFreqPresence::default().frequency(f).presence(p).last_n(last_n);
        for (i, (spec, hist)) in gen::cycled(&c.steps, c.steps.first().map_or(0, |s| s.0.again), |s| { let (l, h) = (s.0.vals.len(), s.1.len()); l + h + l * h / 50 }).enumerate() {
            let mut l = spec.build();
            let before = l.to_vec();
            let ids: Vec<u32> = before.iter().map(|x| x.token_id).collect();
            let h = hist.expand(&ids);
            let mut counts: HashMap<u32, u32> = HashMap::new();
            for t in &h[h.len() - last_n.min(h.len())..] {
                *counts.entry(*t).or_default() += 1;
            }
            let mut res = res::simple(None, Some(h.clone()));
            s.sample(&mut res, &mut l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(l.len() == before.len(), "step {i}: {} tokens became {}", before.len(), l.len());
            let mut after: HashMap<u32, f32> = l.iter().map(|x| (x.token_id, x.logit)).collect();
            let on = f != 0.0 || p != 0.0;
            let (mut hit, mut miss) = (false, false);
            for b in &before {
                let Some(a) = after.remove(&b.token_id) else {
                    return Err(format!("step {i}: token {} is gone", b.token_id));
                };
                match counts.get(&b.token_id) {
                    Some(n) if on => {
                        hit |= *n > 1;
                        let cf = *n as f64 * f as f64;
                        let want = b.logit as f64 - (cf + p as f64);
                        let scale = cf.abs() + (p as f64).abs() + if b.logit.is_finite() { b.logit.abs() as f64 } else { 0.0 };
                        ensure!(
                            close(a, want, 1e-6, scale),
                            "step {i}: frequency {f:?} presence {p:?} last_n {last_n}: token {} occurs {n} times and went from {:?} to {a:?}, expected {want}",
                            b.token_id, b.logit
                        );
                    }
                    _ => {
                        miss = true;
                        ensure!(
                            a.to_bits() == b.logit.to_bits(),
                            "step {i}: frequency {f:?} presence {p:?} last_n {last_n}: token {} does not occur but went from {:?} to {a:?}",
                            b.token_id, b.logit
                        );
                    }
                }
            }
            check_flags(&l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(res::history(&res).as_ref() == Some(&h), "step {i}: the history changed");
            cov.nontrivial_if(hit && miss);
            cov.label_if(on && h.len() > last_n, "history longer than window");
            cov.label_if(!on, "disabled");
            cov.label_if(on && counts.len() > 500, "over 500 different tokens in the window");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
