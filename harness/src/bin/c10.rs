//! C10: tail free cuts where the normalised second-derivative mass exceeds z.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    z: Sel,
    min_keep: usize,
    lists: Vec<LIn>,
}

/// Running sums of the normalised second differences, and their rounding
/// error; None where the normalisation is not meaningful.
fn reference(r: &Ref) -> Option<(Vec<f64>, f64)> {
    let n = r.n();
    let d1: Vec<f64> = r.p.windows(2).map(|w| w[0] - w[1]).collect();
    let d2: Vec<f64> = d1.windows(2).map(|w| (w[0] - w[1]).abs()).collect();
    let sum: f64 = d2.iter().sum();
    if sum <= 0.0 {
        return None;
    }
    let cum: Vec<f64> = d2
        .iter()
        .scan(0.0, |c, d| {
            *c += d / sum;
            Some(*c)
        })
        .collect();
    if r.exact {
        let pow2 = sum.log2().fract() == 0.0;
        return Some((cum, if pow2 { 0.0 } else { 1e-6 + 2e-7 * n as f64 }));
    }
    // Equal logits have equal probabilities, so a plateau adds nothing; the
    // softmax sum is common to all entries and cancels in the normalisation.
    // What is left is the rounding of each exponential and of the additions of
    // non-zero terms.
    let rel = |i: usize| 1e-6 + 2e-7 * (r.sorted[0] as f64 - r.sorted[i] as f64).min(120.0);
    let err: f64 = (0..n - 2)
        .filter(|i| r.sorted[*i] != r.sorted[i + 1] || r.sorted[i + 1] != r.sorted[i + 2])
        .map(|i| r.p[i] * rel(i) + 2.0 * r.p[i + 1] * rel(i + 1) + r.p[i + 2] * rel(i + 2))
        .sum();
    let terms = d2.iter().filter(|d| **d > 0.0).count();
    Some((cum, 2.0 * err / sum + 4e-6 + 4e-7 * terms as f64))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C10";
    const RULE: &'static str = "z arbitrary or at (and next to) a running sum of the first list; one to three lists, one sampler object. Reference in f64; cases whose second differences drown in f32 rounding only check the contract. Non-trivial: z decided a cut that the reference confirms.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (gen::sel(), prop_oneof![3 => 0usize..4, 2 => gen::count()], gen::seq(gen::lin(2), 1..4, 4..80, 300))
            .prop_map(|(z, min_keep, lists)| Case { z, min_keep, lists })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let first = Ref::for_spec(&c.lists[0].build(), &c.lists[0]);
        let z = match c.z {
            Sel::Val(F(z)) => z,
            Sel::At(i, u) if first.n() > 2 && first.defined() => match reference(&first) {
                Some((cum, _)) => ulps(cum[i as usize % cum.len()] as f32, u as i32),
                None => 0.5,
            },
            Sel::At(..) => 0.5,
        };
        let mk = c.min_keep;
        let mut s = SampleTailFree::default().z(z).min_keep(mk);
        for (li, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            let before = l.clone();
            let r = Ref::for_spec(&l, spec);
            let n = r.n();
            let ctx = |e: String| format!("list {li}, z={z:?} min_keep={mk}: {e}");
            let res = s.sample(&mut (), &mut l).map(|_| ()).map_err(|e| e.to_string());
            if z >= 1.0 || n <= 2 {
                res.map_err(ctx)?;
                check_flags(&l).map_err(ctx)?;
                ensure!(
                    l.len() == n && l.iter().zip(before.iter()).all(|(a, b)| a.token_id == b.token_id && same(a.logit, b.logit)),
                    "list {li}: z={z:?}: nothing to cut in {n} tokens, but the list changed"
                );
                cov.label("disabled or too short");
                continue;
            }
            if !r.defined() {
                check_subset(&before, &l).map_err(ctx)?;
                continue;
            }
            res.map_err(ctx)?;
            check_top(&r, &l).map_err(ctx)?;
            check_flags(&l).map_err(ctx)?;
            let k = l.len();
            ensure!(k >= mk.min(n), "list {li}: z={z:?} min_keep={mk}: {k} of {n} kept");
            if z.is_nan() {
                continue;
            }
            let Some((cum, tol)) = reference(&r) else {
                // Nothing to normalise: with equal logits there is no tail.
                if z >= 0.0 && before.iter().all(|x| x.logit == before[0].logit) {
                    ensure!(k == n, "list {li}: z={z} min_keep={mk}: {k} of {n} equally probable tokens kept");
                }
                cov.label("flat");
                continue;
            };
            if tol > 0.05 {
                cov.label("ill-conditioned");
                continue;
            }
            let z = z as f64;
            // First index that may, and first that must, end the list.
            let may = (mk..cum.len()).find(|i| if tol == 0.0 { cum[*i] > z } else { cum[*i] > z - tol });
            let must = (mk..cum.len()).find(|i| cum[*i] > z + tol).unwrap_or(n);
            let may = may.unwrap_or(n);
            ensure!(
                (may..=must).contains(&k),
                "list {li}: z={z} min_keep={mk}: {k} of {n} kept, the running sum calls for {may} to {must}"
            );
            cov.nontrivial_if(k < n && k > mk && may == must);
            cov.label_if(tol == 0.0 && k < n, "exact boundary regime");
            cov.label_if(k == mk && mk > 0 && k < n, "min_keep decides");
            cov.label_if(k == n, "all kept");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
