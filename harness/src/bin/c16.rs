//! C16: greedy selects a token with the highest logit and alters nothing.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    lists: Vec<(LIn, Vec<(u32, F)>)>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C16";
    const RULE: &'static str = "One to four lists in any state, with NaN and infinities written over random places (as samplers may produce), one sampler object without resources. Non-trivial: two or more entries, the best one not first or a NaN present.";
    const QUICK: u64 = 150_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let special = proptest::sample::select(vec![f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0]).prop_map(F);
        let put = prop_oneof![2 => vec((any::<u32>(), special.clone()), 0..1), 1 => vec((any::<u32>(), special), 1..4)];
        gen::seq((gen::lin(3), put), 1..5, 5..120, 300).prop_map(|lists| Case { lists }).boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut s = SampleGreedy::new();
        for (i, (spec, put)) in gen::turns(&c.lists, |l| &l.0).enumerate() {
            let mut l = spec.build();
            if !put.is_empty() && !l.is_empty() {
                let n = l.len();
                for (j, v) in put {
                    l[*j as usize % n].logit = v.0;
                }
                l.set_sorted(false);
                l.set_softmax(false);
            }
            let before = l.clone();
            let best = before.iter().map(|x| x.logit).filter(|x| !x.is_nan()).reduce(f32::max);
            let got = if i % 2 == 0 {
                s.sample_token(&mut (), &mut l).map_err(|e| format!("list {i}: {e}"))?
            } else {
                s.sample(&mut NilSamplerResources::new(), &mut l).map_err(|e| format!("list {i}: {e}"))?;
                s.sampled_token_id()
            };
            check_identical(&before, &l).map_err(|e| format!("list {i}: greedy changed the list: {e}"))?;
            ensure!(
                got == s.sampled_token_id() && got == s.get_token_id() && got == *s,
                "list {i}: sample_token says {got:?}, sampled_token_id {:?}, get_token_id {:?}, deref {:?}",
                s.sampled_token_id(), s.get_token_id(), *s
            );
            match (best, got) {
                (None, None) => (),
                (None, Some(t)) => return Err(format!("list {i}: token {t} from a list without usable logits")),
                (Some(b), None) => return Err(format!("list {i}: no token although {b:?} is the best logit")),
                (Some(b), Some(t)) => {
                    let x = before.iter().find(|x| x.token_id == t);
                    ensure!(
                        x.is_some_and(|x| x.logit == b),
                        "list {i}: picked token {t} with {:?}, the best logit is {b:?}",
                        x.map(|x| x.logit)
                    );
                    cov.nontrivial_if(before.len() > 1 && (before[0].logit != b || before.iter().any(|x| x.logit.is_nan())));
                }
            }
            cov.label_if(before.get_sorted(), "sorted input");
            cov.label_if(before.iter().any(|x| x.logit.is_nan()), "NaN present");
            cov.label_if(before.iter().filter(|x| Some(x.logit) == best).count() > 1, "tie for best");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
