//! C04: the flags never lie, whatever happened before.
use harness::prelude::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Run(S),
    /// The caller changes a logit and says so.
    Bump(u16, F),
    Push(F),
    /// The caller removes an entry (order kept) and withdraws softmax.
    Remove(u16),
    Truncate(u16),
    Swap(u16, u16),
    Unsort,
    Unsoft,
    Sort,
    Softmax,
    TopKBuild(u8),
    CloneIt,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    l: LIn,
    hist: Hist,
    seed: u64,
    ops: Vec<Op>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C04";
    const RULE: &'static str = "Random histories of up to 10 sampler runs and caller edits on one list; after every step the flags are checked against the list (f64 softmax, pairwise order). Non-trivial: at least two steps ran on a list with a flag set and two or more distinct logits.";
    const QUICK: u64 = 35_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            8 => gen::s_any().prop_map(Op::Run),
            1 => (any::<u16>(), gen::value_wide()).prop_map(|(i, v)| Op::Bump(i, v)),
            1 => gen::value_plain().prop_map(Op::Push),
            1 => any::<u16>().prop_map(Op::Remove),
            1 => any::<u16>().prop_map(Op::Truncate),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::Swap(a, b)),
            1 => Just(Op::Unsort),
            1 => Just(Op::Unsoft),
            1 => Just(Op::Sort),
            3 => Just(Op::Softmax),
            1 => (0u8..20).prop_map(Op::TopKBuild),
            1 => Just(Op::CloneIt),
        ];
        let l = prop_oneof![9 => gen::lin_short(), 1 => gen::lin(3)];
        (l, gen::hist(), any::<u64>(), gen::seq(op, 1..11, 11..200, 1000))
            .prop_map(|(l, hist, seed, ops)| Case { l, hist, seed, ops })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut l = c.l.build();
        let ids: Vec<u32> = l.iter().map(|x| x.token_id).collect();
        let mut res = res::simple(Some(c.seed), Some(c.hist.expand(&ids)));
        let mut fresh_id = 0xF000_0000u32;
        check_flags(&l)?;
        let mut hot = 0;
        for (step, op) in c.ops.iter().enumerate() {
            let n = l.len();
            let was = (l.get_sorted(), l.get_softmax());
            if (was.0 || was.1) && n > 1 && l.iter().any(|x| x.logit != l[0].logit) {
                hot += 1;
            }
            match op {
                Op::Run(s) => {
                    let err = with_sampler!(s, &ids, |s| s.sample(&mut res, &mut l).is_err());
                    cov.label_if(err, "sampler error");
                }
                Op::Bump(i, v) => {
                    if n > 0 {
                        l[*i as usize % n].logit = v.0;
                        l.set_sorted(false);
                        l.set_softmax(false);
                    }
                }
                Op::Push(v) => {
                    while l.iter().any(|x| x.token_id == fresh_id) {
                        fresh_id += 1;
                    }
                    l.push(Logit { token_id: fresh_id, logit: v.0, prob: 0.5 });
                    fresh_id += 1;
                    l.set_sorted(false);
                    l.set_softmax(false);
                }
                Op::Remove(i) => {
                    if n > 0 {
                        l.remove(*i as usize % n);
                        l.set_softmax(false);
                    }
                }
                Op::Truncate(i) => {
                    l.truncate(*i as usize % (n + 1));
                    l.set_softmax(false);
                }
                Op::Swap(a, b) => {
                    if n > 0 {
                        l.swap(*a as usize % n, *b as usize % n);
                        l.set_sorted(false);
                    }
                }
                Op::Unsort => {
                    l.set_sorted(false);
                }
                Op::Unsoft => {
                    l.set_softmax(false);
                }
                Op::Sort => {
                    let before = l.to_vec();
                    let nan = before.iter().any(|x| x.logit.is_nan());
                    match l.ensure_sorted() {
                        Ok(_) => {
                            ensure!(l.get_sorted(), "step {step}: not marked sorted after sorting");
                            check_same_tokens(&before, &l)?;
                        }
                        Err(e) => ensure!(nan, "step {step}: sorting failed: {e}"),
                    }
                }
                Op::Softmax => {
                    let before = l.to_vec();
                    let nan = before.iter().any(|x| x.logit.is_nan());
                    match l.ensure_softmax() {
                        Ok(_) => {
                            ensure!(l.get_softmax(), "step {step}: softmax not marked after softmax");
                            ensure!(l.windows(2).all(|w| w[0].logit >= w[1].logit), "step {step}: not descending after softmax");
                            check_same_tokens(&before, &l)?;
                        }
                        Err(e) => ensure!(nan, "step {step}: softmax failed: {e}"),
                    }
                }
                Op::TopKBuild(k) => {
                    let v: Vec<f32> = l.iter().map(|x| x.logit).collect();
                    l = Logits::try_from_iter_top_k(v, *k as usize).map_err(|e| e.to_string())?;
                }
                Op::CloneIt => {
                    let c = l.clone();
                    l = c;
                }
            }
            check_flags(&l).map_err(|e| format!("after step {step} ({op:?}): {e}"))?;
        }
        cov.nontrivial_if(hot >= 2);
        // Whatever happened, asking really establishes it.
        if !l.iter().any(|x| x.logit.is_nan()) {
            let before = l.to_vec();
            l.ensure_sorted().map_err(|e| format!("final sort failed: {e}"))?;
            ensure!(l.windows(2).all(|w| w[0].logit >= w[1].logit), "final sort did not sort");
            l.ensure_softmax().map_err(|e| format!("final softmax failed: {e}"))?;
            check_probs(&l).map_err(|e| format!("final softmax: {e}"))?;
            check_same_tokens(&before, &l)?;
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
