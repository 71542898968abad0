//! C06: top-K keeps exactly the max(k, min_keep) best tokens.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    k: usize,
    min_keep: usize,
    /// Choose k / min_keep near the length of the first list.
    near: Option<(bool, i8)>,
    more: (u8, u8),
    lists: Vec<LIn>,
    inf: Vec<u16>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C06";
    const RULE: &'static str = "k and min_keep over the whole usize range, or near the list length, on one to three lists with one sampler object. Non-trivial: at least one list cut to two or more tokens.";
    const QUICK: u64 = 100_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            gen::count(),
            gen::count(),
            gen::opt((any::<bool>(), -3i8..3).boxed()),
            (0u8..6, 0u8..6),
            gen::seq(gen::lin(2), 1..4, 4..80, 300),
            prop_oneof![9 => vec(any::<u16>(), 0..1), 1 => vec(any::<u16>(), 1..3)],
        )
            .prop_map(|(k, min_keep, near, more, lists, inf)| Case { k, min_keep, near, more, lists, inf })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (mut k, mut mk) = (c.k, c.min_keep);
        let build = |i: usize| {
            let mut l = c.lists[i].build();
            if !c.inf.is_empty() && !l.is_empty() {
                let n = l.len();
                for j in &c.inf {
                    l[*j as usize % n].logit = f32::INFINITY;
                }
                l.set_sorted(false);
                l.set_softmax(false);
            }
            l
        };
        if let Some((on_k, d)) = c.near {
            let v = (build(0).len() as i64 + d as i64).max(0) as usize;
            if on_k {
                k = v
            } else {
                mk = v
            }
        }
        let mut s = SampleTopK::new(k, mk);
        let mut s2 = SampleTopK::default().k(k.saturating_add(c.more.0 as usize)).min_keep(mk.saturating_add(c.more.1 as usize));
        let places: Vec<usize> = (0..c.lists.len()).collect();
        for &i in gen::cycled(&places, c.lists[0].again, |i| c.lists[*i].vals.len()) {
            let mut l = build(i);
            let mut l2 = l.clone();
            let r = Ref::new(&l);
            let n = r.n();
            let want = k.max(mk).min(n);
            let ctx = |e: String| format!("list {i}, k={k} min_keep={mk}: {e}");
            s.sample(&mut (), &mut l).map_err(|e| ctx(e.to_string()))?;
            ensure!(l.len() == want, "list {i}: k={k} min_keep={mk}: {} of {n} left, {want} expected", l.len());
            check_top(&r, &l).map_err(ctx)?;
            ensure!(l.windows(2).all(|w| w[0].logit >= w[1].logit), "list {i}: k={k} min_keep={mk}: not in descending order");
            check_flags(&l).map_err(ctx)?;
            s2.sample(&mut (), &mut l2).map_err(|e| ctx(e.to_string()))?;
            ensure!(l2.len() >= l.len(), "list {i}: k={k} min_keep={mk}: larger parameters {s2:?} leave {} instead of {}", l2.len(), l.len());
            cov.nontrivial_if(want < n && want >= 2);
            cov.label_if(mk > k && mk < n, "min_keep decides");
            cov.label_if(k > mk && k < n, "k decides");
            cov.label_if(want == n, "all kept");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
