//! C03: softmax yields the true distribution.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    l: LIn,
    /// Withdraw the sorted / softmax flag before asking for softmax.
    unsort: bool,
    unsoft: bool,
    shift: i8,
    rot: u16,
    /// Logits changed afterwards, before softmax is asked for again.
    bump: Vec<(u16, F)>,
}

fn verify(before: &[Logit], l: &Logits) -> Outcome {
    check_same_tokens(before, l)?;
    let r = Ref::from_items(before.to_vec());
    ensure!(l.get_softmax() && l.get_sorted(), "flags after softmax: sorted {}, softmax {}", l.get_sorted(), l.get_softmax());
    let mut sum = 0f64;
    for (i, x) in l.iter().enumerate() {
        ensure!(same(x.logit, r.sorted[i]), "place {i} has logit {:?}, descending order wants {:?}", x.logit, r.sorted[i]);
        ensure!(x.prob >= 0.0, "place {i} has probability {:?}", x.prob);
        if x.logit == f32::NEG_INFINITY {
            ensure!(x.prob == 0.0, "a -inf logit has probability {:?}", x.prob);
        }
        if i > 0 {
            let y = &l[i - 1];
            ensure!(y.prob >= x.prob, "probabilities not descending at {i}: {:?} then {:?}", y.prob, x.prob);
            if y.logit == x.logit {
                ensure!(y.prob == x.prob, "equal logits, probabilities {:?} and {:?}", y.prob, x.prob);
            }
        }
        sum += x.prob as f64;
    }
    let tol = 1e-5 + 3e-7 * r.n() as f64;
    ensure!(l.is_empty() || (sum - 1.0).abs() <= tol, "probabilities sum to {sum}");
    check_probs(l)
}

struct P;
impl Prop for P {
    const ID: &'static str = "C03";
    const RULE: &'static str = "Lists of every shape, in every state a caller can hand over (raw, sorted, softmax applied, reordered), with arbitrary stale probabilities; then shifted, rotated, modified and normalised again. Non-trivial: two or more entries with at least two distinct logits.";
    const QUICK: u64 = 25_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            gen::lin(10),
            any::<bool>(),
            any::<bool>(),
            -30i8..30,
            any::<u16>(),
            vec((any::<u16>(), gen::value_wide()), 0..3),
        )
            .prop_map(|(l, unsort, unsoft, shift, rot, bump)| Case { l, unsort, unsoft, shift, rot, bump })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut l = c.l.build();
        if c.unsort {
            l.set_sorted(false);
        }
        if c.unsoft {
            l.set_softmax(false);
        }
        let before = l.to_vec();
        let r = Ref::new(&l);
        if !r.defined() {
            cov.label("undefined");
            return Ok(());
        }
        cov.nontrivial_if(r.sorted.iter().any(|x| *x != r.sorted[0]));
        cov.label_if(r.sorted.last() == Some(&f32::NEG_INFINITY), "-inf present");
        cov.label_if(r.n() > 2000, "vocabulary sized");
        let input = l.clone();
        l.ensure_softmax().map_err(|e| format!("softmax failed: {e}"))?;
        verify(&before, &l)?;

        // Again: nothing changes.
        let once = l.clone();
        l.ensure_softmax().map_err(|e| format!("second softmax failed: {e}"))?;
        check_identical(&once, &l).map_err(|e| format!("second softmax changed the list: {e}"))?;

        // A permutation of the input gives the same probabilities.
        let probs: HashMap<u32, f32> = l.iter().map(|x| (x.token_id, x.prob)).collect();
        let n = input.len();
        if n > 1 {
            let mut rot = Logits::default();
            rot.extend(input.iter().cloned());
            rot.rotate_left(c.rot as usize % n);
            rot.ensure_softmax().map_err(|e| format!("softmax of the permutation failed: {e}"))?;
            for x in rot.iter() {
                let p = probs.get(&x.token_id).copied().unwrap_or(f32::NAN);
                ensure!(
                    close(x.prob, p as f64, 4e-6 + 3e-7 * n as f64, 0.0),
                    "token {}: probability {p:?}, {:?} for a permuted list",
                    x.token_id,
                    x.prob
                );
            }
            // So does a shift that is exact in f32.
            let d = c.shift as f32 * 0.5;
            let exact = input.iter().all(|x| {
                let s = x.logit + d;
                x.logit.is_infinite() || (s as f64 == x.logit as f64 + d as f64)
            });
            if exact {
                cov.label("exact shift");
                let mut sh = Logits::default();
                sh.extend(input.iter().map(|x| Logit { logit: x.logit + d, ..x.clone() }));
                sh.ensure_softmax().map_err(|e| format!("softmax of the shifted list failed: {e}"))?;
                for x in sh.iter() {
                    let p = probs.get(&x.token_id).copied().unwrap_or(f32::NAN);
                    ensure!(
                        close(x.prob, p as f64, 4e-6 + 3e-7 * n as f64, 0.0),
                        "token {}: probability {p:?}, {:?} after adding {d} to all logits",
                        x.token_id,
                        x.prob
                    );
                }
            }
        }

        // After a change made by the caller, softmax is recomputed in full.
        if n > 0 && !c.bump.is_empty() {
            for (i, v) in &c.bump {
                let i = *i as usize % n;
                l[i].logit = v.0;
            }
            l.set_sorted(false);
            l.set_softmax(false);
            let before = l.to_vec();
            if Ref::new(&l).defined() {
                l.ensure_softmax().map_err(|e| format!("softmax after a change failed: {e}"))?;
                verify(&before, &l).map_err(|e| format!("after a change: {e}"))?;
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
