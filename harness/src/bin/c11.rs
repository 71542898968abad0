//! C11: flat bias adds its bias to exactly the listed tokens.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Edit {
    Set(gen::Tok, F),
    Remove(u16),
    Clear,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    bias: Vec<(gen::Tok, F)>,
    steps: Vec<(Vec<Edit>, LIn)>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C11";
    const RULE: &'static str = "Bias lists with distinct tokens (present and absent, finite and +-inf), edited between uses through DerefMut, on one to four lists. Non-trivial: a listed token is present with a non-zero bias and another token is not listed.";
    const QUICK: u64 = 100_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let v = prop_oneof![
            5 => gen::amount(),
            2 => Just(F(f32::NEG_INFINITY)),
            1 => Just(F(f32::INFINITY)),
            1 => gen::value_plain(),
        ]
        .boxed();
        let tok = prop_oneof![3 => 0u16..20, 1 => any::<u16>()].boxed();
        let edit = prop_oneof![
            4 => (tok.clone(), v.clone()).prop_map(|(t, v)| Edit::Set(t, v)),
            1 => any::<u16>().prop_map(Edit::Remove),
            1 => Just(Edit::Clear),
        ];
        // More entries than fit in small integers.
        let many = (
            vec((any::<u16>(), v.clone()), 200..4000),
            (100u32..4000, any::<u64>(), gen::shape(true), gen::ids())
                .prop_map(|(n, seed, shape, ids)| LIn { vals: Vals::Expr { n, seed, shape }, ids, prep: Prep::Raw, stale: 0, again: 0 }),
        )
            .prop_map(|(bias, l)| Case { bias, steps: vec![(vec![], l)] });
        let bias = prop_oneof![4 => vec((tok.clone(), v.clone()), 0..8), 1 => vec((any::<u16>(), v), 0..60)];
        let usual = (bias, gen::seq((vec(edit, 0..3), gen::lin(2)), 1..5, 5..80, 300)).prop_map(|(bias, steps)| Case { bias, steps });
        prop_oneof![4000 => usual, 1 => many].boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        // Token references are resolved against the first list throughout.
        let ids: Vec<u32> = c.steps[0].1.build().iter().map(|x| x.token_id).collect();
        let mut model: Vec<(u32, f32)> = vec![];
        let set = |m: &mut Vec<(u32, f32)>, t: u16, v: f32| {
            let t = gen::resolve(t, &ids);
            match m.iter_mut().find(|x| x.0 == t) {
                Some(e) => e.1 = v,
                None => m.push((t, v)),
            }
        };
        for (t, v) in &c.bias {
            set(&mut model, *t, v.0);
        }
        let mut s = SampleFlatBias::new(model.clone());
        for (i, (edits, spec)) in gen::turns(&c.steps, |s| &s.1).enumerate() {
            for e in edits {
                cov.label("edited");
                match e {
                    Edit::Set(t, v) => {
                        set(&mut model, *t, v.0);
                        let t = gen::resolve(*t, &ids);
                        match s.iter_mut().find(|x| x.0 == t) {
                            Some(e) => e.1 = v.0,
                            None => s.push((t, v.0)),
                        }
                    }
                    Edit::Remove(i) => {
                        if !model.is_empty() {
                            let i = *i as usize % model.len();
                            model.remove(i);
                            s.remove(i);
                        }
                    }
                    Edit::Clear => {
                        model.clear();
                        s.clear();
                    }
                }
            }
            let map: HashMap<u32, f32> = model.iter().copied().collect();
            let mut l = spec.build();
            let before = l.to_vec();
            s.sample(&mut (), &mut l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(l.len() == before.len(), "step {i}: {} tokens became {}", before.len(), l.len());
            let mut after: HashMap<u32, f32> = l.iter().map(|x| (x.token_id, x.logit)).collect();
            let (mut hit, mut miss) = (false, false);
            for b in &before {
                let Some(a) = after.remove(&b.token_id) else {
                    return Err(format!("step {i}: token {} is gone", b.token_id));
                };
                match map.get(&b.token_id) {
                    Some(v) => {
                        hit |= *v != 0.0;
                        let want = b.logit + *v;
                        ensure!(same(a, want), "step {i}: token {}: {:?} with bias {v:?} became {a:?}", b.token_id, b.logit);
                    }
                    None => {
                        miss = true;
                        ensure!(a.to_bits() == b.logit.to_bits(), "step {i}: unlisted token {} went from {:?} to {a:?}", b.token_id, b.logit);
                    }
                }
            }
            check_flags(&l).map_err(|e| format!("step {i}: {e}"))?;
            cov.nontrivial_if(hit && miss);
            cov.label_if(map.len() > before.len(), "more biases than tokens");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
