//! C07: top-P keeps the smallest most-probable set that reaches p.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    p: Sel,
    min_keep: usize,
    more: (F, u8),
    lists: Vec<LIn>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C07";
    const RULE: &'static str = "p arbitrary or at (and next to) a prefix sum of the first list; one to three lists, one sampler object; distributions with exact binary probabilities decide the boundary without tolerance. Non-trivial: p decided the cut (more than max(1, min_keep) kept, fewer than all).";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            gen::sel(),
            prop_oneof![3 => 0usize..4, 2 => gen::count()],
            ((0.0f32..0.5).prop_map(F), 0u8..5),
            gen::seq(gen::lin(2), 1..4, 4..80, 300),
        )
            .prop_map(|(p, min_keep, more, lists)| Case { p, min_keep, more, lists })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let first = Ref::for_spec(&c.lists[0].build(), &c.lists[0]);
        let p = match c.p {
            Sel::Val(F(p)) => p,
            Sel::At(i, u) if first.n() > 0 && first.defined() => ulps(first.cum[i as usize % first.n()] as f32, u as i32),
            Sel::At(..) => 0.5,
        };
        let mk = c.min_keep;
        let mut s = SampleTopP::new(p, mk);
        let mut s2 = SampleTopP::default().p(p + c.more.0 .0).min_keep(mk.saturating_add(c.more.1 as usize));
        for (i, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            let mut l2 = l.clone();
            let r = Ref::for_spec(&l, spec);
            if !r.defined() {
                let before = l.to_vec();
                if s.sample(&mut (), &mut l).is_ok() {
                    check_subset(&before, &l)?;
                }
                continue;
            }
            let ctx = |e: String| format!("list {i}, p={p:?} min_keep={mk}: {e}");
            s.sample(&mut (), &mut l).map_err(|e| ctx(e.to_string()))?;
            check_top(&r, &l).map_err(ctx)?;
            check_mass_cut(&r.cum, l.len(), p as f64, false, mk, r.tol_cum()).map_err(ctx)?;
            check_flags(&l).map_err(ctx)?;
            let n = r.n();
            cov.nontrivial_if(l.len() < n && l.len() > mk.max(1));
            cov.label_if(r.exact && l.len() < n, "exact boundary regime");
            cov.label_if(r.exact && matches!(c.p, Sel::At(_, 0)) && i == 0, "p exactly at a prefix sum");
            cov.label_if(l.len() == mk && mk > 1 && mk < n, "min_keep decides");
            cov.label_if(l.len() == n && n > 1, "all kept");
            s2.sample(&mut (), &mut l2).map_err(|e| ctx(e.to_string()))?;
            ensure!(l2.len() >= l.len(), "list {i}: p={p:?} min_keep={mk}: larger parameters {s2:?} leave {} instead of {}", l2.len(), l.len());
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
