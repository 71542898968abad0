//! C02: top-k construction keeps exactly the k largest finite values.
use harness::{custom::Hint, prelude::*};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum K {
    Abs(usize),
    NearLen(i8),
    NearFinite(i8),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    vals: Vals,
    put: Vec<(u32, F)>,
    k: K,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C02";
    const RULE: &'static str = "Value lists with NaN, +-inf, ties and signed zeros at random places; k arbitrary or near the length or the number of finite values. Non-trivial: 0 < k < finite values, with a non-finite value or a tie in the list.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let patch = proptest::sample::select(vec![
            f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, f32::MAX, f32::MIN,
        ])
        .prop_map(F);
        let k = prop_oneof![
            4 => gen::count().prop_map(K::Abs),
            2 => (1usize..12).prop_map(K::Abs),
            2 => (-3i8..3).prop_map(K::NearLen),
            2 => (-3i8..3).prop_map(K::NearFinite),
        ];
        (gen::vals(1), vec((any::<u32>(), patch), 0..6), k)
            .prop_map(|(vals, put, k)| Case { vals, put, k })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut v = c.vals.expand();
        // Cost is length times k.
        const COST: usize = 1_500_000_000;
        if matches!(c.k, K::NearLen(_) | K::NearFinite(_)) && v.len() > 38_000 {
            v.truncate(38_000);
        }
        let n = v.len();
        if n > 0 {
            for (i, x) in &c.put {
                v[*i as usize % n] = x.0;
            }
        }
        let finite: Vec<(usize, f32)> =
            v.iter().copied().enumerate().filter(|(_, x)| x.is_finite()).collect();
        let k = match c.k {
            K::Abs(k) if k.min(n).saturating_mul(n) > COST => COST / n,
            K::Abs(k) => k,
            K::NearLen(d) => (n as i64 + d as i64).max(0) as usize,
            K::NearFinite(d) => (finite.len() as i64 + d as i64).max(0) as usize,
        };
        let mut want: Vec<f32> = finite.iter().map(|x| x.1).collect();
        want.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let ties = want.windows(2).any(|w| w[0] == w[1]);
        cov.nontrivial_if(k > 0 && k < finite.len() && (ties || finite.len() < n));
        cov.label_if(ties, "ties");
        cov.label_if(finite.len() < n, "non-finite value");
        cov.label_if(k >= finite.len(), "k covers everything");
        want.truncate(k);

        for (how, r) in [
            ("vec", Logits::try_from_iter_top_k(v.clone(), k)),
            ("iter", Logits::try_from_iter_top_k(v.iter().copied(), k)),
            ("iter without size", Logits::try_from_iter_top_k(v.iter().copied().filter(|_| true), k)),
            ("iter that knows part of the size", Logits::try_from_iter_top_k(v.iter().copied().take(n / 2).chain(v.iter().copied().skip(n / 2).filter(|_| true)), k)),
            ("iter that knows too high a bound", Logits::try_from_iter_top_k(Hint(v.iter().copied(), n.min(1), n + 5), k)),
        ] {
            let l = r.map_err(|e| format!("{how}: k={k}: {e}"))?;
            ensure!(l.len() == want.len(), "{how}: k={k}: {} entries, {} expected", l.len(), want.len());
            let mut seen = std::collections::HashSet::new();
            for (i, (x, w)) in l.iter().zip(&want).enumerate() {
                ensure!(x.logit == *w, "{how}: k={k}: place {i} has {:?}, expected {w:?}", x.logit);
                let o = v.get(x.token_id as usize).copied().unwrap_or(f32::NAN);
                ensure!(
                    o.to_bits() == x.logit.to_bits(),
                    "{how}: k={k}: token {} has {:?}, the input there is {o:?}",
                    x.token_id,
                    x.logit
                );
                ensure!(seen.insert(x.token_id), "{how}: k={k}: token {} appears twice", x.token_id);
            }
            ensure!(l.is_empty() || l.get_sorted(), "{how}: k={k}: not marked sorted");
            check_flags(&l).map_err(|e| format!("{how}: k={k}: {e}"))?;

            // Building everything and filtering afterwards agrees.
            let mut full = Logits::default();
            full.extend(finite.iter().map(|(i, x)| Logit { token_id: *i as u32, logit: *x, prob: 0.0 }));
            SampleTopK::new(k, 0).sample(&mut (), &mut full).map_err(|e| format!("top-k sampler: {e}"))?;
            ensure!(full.len() == l.len(), "{how}: k={k}: top-k sampler keeps {}, construction {}", full.len(), l.len());
            let strict = !ties;
            for (i, (a, b)) in l.iter().zip(full.iter()).enumerate() {
                ensure!(
                    a.logit == b.logit && (!strict || a.token_id == b.token_id),
                    "{how}: k={k}: place {i}: construction {a:?}, top-k sampler {b:?}"
                );
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
