//! C15: temperature divides every logit and keeps the ranking.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    t: F,
    t2: F,
    lists: Vec<LIn>,
}

fn temps() -> BoxedStrategy<F> {
    prop_oneof![
        4 => gen::temp_signed(),
        1 => proptest::sample::select(vec![0.001f32, 0.01, 1000.0, 1.0, 0.0, -0.0, 0.999_999_94, 1.000_000_1, -1.0]).prop_map(F),
    ]
    .boxed()
}

fn ids(l: &Logits) -> HashMap<u32, Logit> {
    l.iter().map(|x| (x.token_id, x.clone())).collect()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C15";
    const RULE: &'static str = "Temperatures of either sign, zero and one included, on one to three lists (wide values, -inf) with one sampler object; a second temperature for composition. Non-trivial: a temperature other than 0 and 1 on a list with two distinct logits.";
    const QUICK: u64 = 100_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (temps(), temps(), gen::seq(gen::lin(2), 1..4, 4..80, 300)).prop_map(|(t, t2, lists)| Case { t, t2, lists }).boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (t, t2) = (c.t.0, c.t2.0);
        let mut s = SampleTemperature::default().temperature(t);
        let mut s2 = SampleTemperature::new(t2);
        for (i, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            let before = l.clone();
            s.sample(&mut (), &mut l).map_err(|e| format!("list {i}: {e}"))?;
            if t == 0.0 {
                cov.label("zero temperature");
                check_identical(&before, &l).map_err(|e| format!("list {i}: temperature 0 changed the list: {e}"))?;
                continue;
            }
            ensure!(l.len() == before.len(), "list {i}: {} tokens became {}", before.len(), l.len());
            let after = ids(&l);
            for b in before.iter() {
                let Some(a) = after.get(&b.token_id) else {
                    return Err(format!("list {i}: token {} is gone", b.token_id));
                };
                let want = b.logit as f64 / t as f64;
                ensure!(
                    close(a.logit, want, 1e-6, 0.0),
                    "list {i}: temperature {t:?}: token {} went from {:?} to {:?}, expected {want}",
                    b.token_id, b.logit, a.logit
                );
            }
            check_flags(&l).map_err(|e| format!("list {i}: temperature {t:?}: {e}"))?;
            let distinct = before.iter().any(|x| x.logit != before[0].logit);
            cov.nontrivial_if(t != 1.0 && distinct);
            cov.label_if(t < 0.0, "negative temperature");
            cov.label_if(before.get_sorted(), "sorted input");
            cov.label_if(before.get_softmax(), "softmax input");
            if t > 0.0 {
                // Ranking: walk down the old order, the new values never rise.
                let mut o: Vec<&Logit> = before.iter().collect();
                o.sort_by(|a, b| b.logit.total_cmp(&a.logit));
                let mut last = f32::INFINITY;
                for b in o {
                    let a = after[&b.token_id].logit;
                    ensure!(a <= last, "list {i}: temperature {t:?}: token {} ({:?}) now ranks above a better one", b.token_id, b.logit);
                    last = a;
                }
                // The best token stays best.
                let mut g = SampleGreedy::new();
                let best = g.sample_token(&mut (), &mut l).map_err(|e| e.to_string())?;
                let max = before.iter().map(|x| x.logit).fold(f32::NEG_INFINITY, f32::max);
                if let Some(best) = best {
                    let old = before.iter().find(|x| x.token_id == best).map(|x| x.logit);
                    // Rounding may make close logits equal.
                    ensure!(
                        old.is_some_and(|o| o == max || close(o, max as f64, 1e-6, 0.0) || after[&best].logit.is_infinite() || after[&best].logit.abs() < 1e-37),
                        "list {i}: temperature {t:?}: best token {best} has logit {old:?}, the best was {max:?}"
                    );
                }
            }
            // Composition.
            s2.sample(&mut (), &mut l).map_err(|e| format!("list {i}: {e}"))?;
            let mut once = before.clone();
            let prod = if t2 == 0.0 { t } else { t * t2 };
            SampleTemperature::new(prod).sample(&mut (), &mut once).map_err(|e| format!("list {i}: {e}"))?;
            let once = ids(&once);
            let big = before.iter().any(|x| x.logit.is_finite() && (x.logit.abs() > 1e20 || (x.logit != 0.0 && x.logit.abs() < 1e-20)));
            if !big {
                for a in l.iter() {
                    let b = once.get(&a.token_id).ok_or_else(|| format!("list {i}: token {} is gone", a.token_id))?;
                    ensure!(
                        close(a.logit, b.logit as f64, 2e-6, 0.0),
                        "list {i}: temperatures {t:?} then {t2:?}: token {} has {:?}, with {prod:?} at once {:?}",
                        a.token_id, a.logit, b.logit
                    );
                }
            }
            check_flags(&l).map_err(|e| format!("list {i}: temperature {t2:?}: {e}"))?;
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
