//! C05: filters only drop tokens, never below min_keep, and drop the worst.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    filters: Vec<S>,
    lists: Vec<LIn>,
    seed: u64,
}

fn min_keep(s: &S) -> usize {
    match s {
        S::TopK { min_keep, .. }
        | S::TailFree { min_keep, .. }
        | S::Typical { min_keep, .. }
        | S::TopP { min_keep, .. }
        | S::MinP { min_keep, .. }
        | S::TopA { min_keep, .. } => *min_keep,
        _ => 1,
    }
}

struct P;
impl Prop for P {
    const ID: &'static str = "C05";
    const RULE: &'static str = "One to three filters (any parameters, NaN and infinite thresholds included) applied in turn to one to three lists, the same sampler objects throughout. Non-trivial: some filter removed a token and left at least two, or kept exactly min_keep >= 2.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let miro = prop_oneof![
            (1usize..500, (0.1f32..9.0).prop_map(F), (0.0f32..2.0).prop_map(F))
                .prop_map(|(n_vocab, tau, eta)| S::Miro1 { n_vocab, tau, eta }),
            ((0.1f32..9.0).prop_map(F), (0.0f32..2.0).prop_map(F)).prop_map(|(tau, eta)| S::Miro2 { tau, eta }),
        ];
        let mk = prop_oneof![3 => gen::count(), 2 => 1usize..8];
        let f = prop_oneof![4 => gen::s_filter(mk.boxed()), 1 => miro];
        (vec(f, 1..4), gen::seq(gen::lin(2), 1..4, 4..80, 300), any::<u64>())
            .prop_map(|(filters, lists, seed)| Case { filters, lists, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut samplers: Vec<_> = c.filters.iter().map(|s| s.boxed(&[])).collect();
        let mut res = res::simple(Some(c.seed), Some(vec![1, 2, 3]));
        for (li, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            for (s, sampler) in c.filters.iter().zip(&mut samplers) {
                let r = Ref::new(&l);
                let before = l.to_vec();
                let err = sampler.sample(&mut res, &mut l).err();
                let ctx = |e: String| format!("list {li}, {s:?}: {e}");
                if matches!(s, S::Typical { .. }) || !r.defined() {
                    check_subset(&before, &l).map_err(ctx)?;
                } else {
                    check_top(&r, &l).map_err(ctx)?;
                }
                match err {
                    // Nothing sensible to do without a largest finite logit.
                    Some(e) => ensure!(!r.defined(), "list {li}, {s:?}: failed: {e}"),
                    None => {
                        let need = min_keep(s).min(before.len());
                        ensure!(l.len() >= need, "list {li}, {s:?}: {} left of {}, min_keep {}", l.len(), before.len(), min_keep(s));
                        cov.nontrivial_if(l.len() < before.len() && l.len() >= 2);
                        cov.label_if(l.len() == min_keep(s) && l.len() >= 2 && l.len() < before.len(), "exactly min_keep");
                        cov.label_if(l.is_empty() && !before.is_empty(), "emptied (min_keep 0)");
                        cov.label_if(l.len() == before.len() && before.len() > 1, "all kept");
                    }
                }
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
