//! C08: min-P and top-A cut exactly at their probability threshold.
use harness::prelude::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    MinP,
    TopA(F),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    /// p or a1
    t: Sel,
    min_keep: usize,
    more: F,
    lists: Vec<LIn>,
}

fn run(kind: Kind, t: f32, mk: usize, l: &mut Logits) -> Result<(), String> {
    match kind {
        Kind::MinP => SampleMinP::new(t, mk).sample(&mut (), l),
        Kind::TopA(a2) => SampleTopA::new(t, a2.0, mk).sample(&mut (), l),
    }
    .map(|_| ())
    .map_err(|e| e.to_string())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C08";
    const RULE: &'static str = "p / a1 arbitrary or at (and next to) the ratio of a token of the first list, a2 mostly 1 or 2 else in [-2, 4]; one to three lists, one sampler object. Non-trivial: the threshold decided the cut (more than max(1, min_keep) kept, fewer than all).";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let a2 = prop_oneof![
            4 => proptest::sample::select(vec![1.0f32, 2.0, 2.0, 0.5, 0.0, 3.0, -1.0]),
            3 => 0.0f32..4.0,
            1 => -2.0f32..0.0,
        ]
        .prop_map(F);
        (
            prop_oneof![Just(Kind::MinP), a2.prop_map(Kind::TopA)],
            gen::sel(),
            prop_oneof![3 => 0usize..4, 2 => gen::count()],
            (0.0f32..0.5).prop_map(F),
            gen::seq(gen::lin(2), 1..4, 4..80, 300),
        )
            .prop_map(|(kind, t, min_keep, more, lists)| Case { kind, t, min_keep, more, lists })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let first = Ref::for_spec(&c.lists[0].build(), &c.lists[0]);
        let scale = |r: &Ref| match c.kind {
            Kind::MinP => r.p[0],
            Kind::TopA(a2) => r.p[0].powf(a2.0 as f64),
        };
        let t = match c.t {
            Sel::Val(F(t)) => t,
            Sel::At(i, u) if first.n() > 0 && first.defined() => {
                ulps((first.p[i as usize % first.n()] / scale(&first)) as f32, u as i32)
            }
            Sel::At(..) => 0.1,
        };
        let mk = c.min_keep;
        let mut sampler: Box<dyn Sampler> = match c.kind {
            Kind::MinP => Box::new(SampleMinP::default().p(t).min_keep(mk)),
            Kind::TopA(a2) => Box::new(SampleTopA::default().a1(t).a2(a2.0).min_keep(mk)),
        };
        let a2 = match c.kind {
            Kind::MinP => 1.0,
            Kind::TopA(a2) => a2.0 as f64,
        };
        let disabled = t == 0.0 || a2 == 0.0;
        for (i, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            let before = l.clone();
            let r = Ref::for_spec(&l, spec);
            let n = r.n();
            let ctx = |e: String| format!("list {i}, {:?} threshold {t:?} min_keep={mk}: {e}", c.kind);
            if !r.defined() {
                if sampler.sample(&mut (), &mut l).is_ok() {
                    check_subset(&before, &l).map_err(ctx)?;
                }
                continue;
            }
            sampler.sample(&mut (), &mut l).map_err(|e| ctx(e.to_string()))?;
            check_top(&r, &l).map_err(ctx)?;
            check_flags(&l).map_err(ctx)?;
            if disabled {
                cov.label("disabled");
                ensure!(
                    l.len() == n && l.iter().zip(before.iter()).all(|(a, b)| a.token_id == b.token_id && same(a.logit, b.logit)),
                    "list {i}: {:?} with threshold {t:?} is disabled but changed the list", c.kind
                );
                continue;
            }
            if n == 0 || t.is_nan() {
                continue;
            }
            let thr = t as f64 * scale(&r);
            let kept = l.len();
            let need = mk.max(1).min(n);
            ensure!(kept >= need, "list {i}: {:?} {t:?} min_keep={mk}: {kept} of {n} kept", c.kind);
            cov.nontrivial_if(kept < n && kept > need);
            cov.label_if(kept == need && need > 1 && need < n, "min_keep decides");
            cov.label_if(kept == n && n > 1, "all kept");
            // Equal tokens beyond the protected ones share their fate.
            if kept < n && kept > need {
                ensure!(
                    r.sorted[kept - 1] != r.sorted[kept],
                    "list {i}: {:?} threshold {t:?} min_keep={mk}: the cut separates tokens with equal logit {:?}",
                    c.kind, r.sorted[kept]
                );
            }
            let exact = r.exact && (a2 == 1.0 || a2 == 2.0) && thr.abs() > 1e-30;
            cov.label_if(exact && kept < n, "exact boundary regime");
            cov.label_if(exact && i == 0 && matches!(c.t, Sel::At(_, 0)), "threshold exactly at a token");
            if thr.abs() >= 1e-36 && thr.is_finite() || thr < 0.0 {
                for j in need..n {
                    // The ratio to the best token does not depend on the sum.
                    let tol = if exact { 0.0 } else { (r.rounding(j) + (1.0 + a2.abs()) * r.rounding(0)) * thr.abs() };
                    if j < kept {
                        ensure!(
                            // A threshold computed otherwise may be off by a rounding step.
                            r.p[j] >= thr - tol.max(2.5e-7 * thr.abs()),
                            "list {i}: {:?} threshold {t:?} min_keep={mk}: kept place {j} of probability {:e}, below {thr:e}",
                            c.kind, r.p[j]
                        );
                    } else {
                        ensure!(
                            r.p[j] < thr + tol,
                            "list {i}: {:?} threshold {t:?} min_keep={mk}: dropped place {j} of probability {:e}, not below {thr:e}",
                            c.kind, r.p[j]
                        );
                    }
                }
            }
            if t > 0.0 {
                let mut l2 = before.clone();
                run(c.kind, t + c.more.0, mk, &mut l2).map_err(ctx)?;
                ensure!(
                    l2.len() <= kept,
                    "list {i}: {:?} min_keep={mk}: threshold {t:?} leaves {kept}, {:?} leaves {}",
                    c.kind, t + c.more.0, l2.len()
                );
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
