//! C24: same inputs and same generator seed give the same result.
use harness::{custom::err_text, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Step {
    Run(LIn),
    NoRng(LIn),
    /// Something unrelated happens before the second run of this step.
    Noise(S, LIn, u64),
    /// From here on the copy is a clone of the original.
    CloneNow,
    /// The second runs happen on another thread from here on.
    OtherThread,
    History(u16),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    pre: Vec<S>,
    s: S,
    steps: Vec<Step>,
    hist: Hist,
    seed: u64,
    /// Put everything in a chain (else the last sampler runs alone).
    chain: bool,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

type Seen = (Logits, Result<Option<u32>, String>, Vec<u64>);

fn run(s: &mut dyn Sampler, l: &LIn, res: &mut res::Counting, direct: bool) -> Seen {
    let mut l = l.build();
    let r = if direct {
        s.sample_token(res, &mut l)
    } else {
        s.sample(res, &mut l).map(|_| ()).map(|_| s.sampled_token_id())
    };
    // The position of the generator, without moving it.
    let mut peek = res.rng.clone();
    let pos = peek.iter_mut().flat_map(|r| [rand::RngCore::next_u64(r), rand::RngCore::next_u64(r)]).collect();
    (l, r.map_err(|e| err_text(&e)), pos)
}

fn agree(i: usize, a: &Seen, b: &Seen, what: &str) -> Outcome {
    check_identical(&a.0, &b.0).map_err(|e| format!("step {i}: {what}: {e}"))?;
    ensure!(a.1 == b.1, "step {i}: {what}: {:?} against {:?}", a.1, b.1);
    ensure!(a.2 == b.2, "step {i}: {what}: the generators are at different positions");
    Ok(())
}

fn check_with<T: Sampler + Clone + 'static>(mut one: T, c: &Case, ids: &[u32], cov: &mut Cov) -> Outcome {
    let built = || -> Box<dyn Sampler> {
        let t = c.s.boxed(ids);
        if c.chain {
            let mut ch = SamplerChain::new();
            c.pre.iter().for_each(|p| ch += p.boxed(ids));
            ch += t;
            Box::new(ch)
        } else {
            t
        }
    };
    let hist = c.hist.expand(ids);
    let mut a = built();
    let mut b = built();
    // The concrete sampler and its clones, alone.
    let mut copy = one.clone();
    let (mut ra, mut rb) = (res::Counting::new(Some(c.seed), Some(hist.clone())), res::Counting::new(Some(c.seed), Some(hist.clone())));
    let (mut ro, mut rc) = (res::Counting::new(Some(c.seed), Some(hist.clone())), res::Counting::new(Some(c.seed), Some(hist)));
    let mut thread = false;
    let (mut runs, mut picked) = (0, false);
    // A thread per step costs much more than the step.
    let spawns = if c.steps.contains(&Step::OtherThread) { 400 } else { 0 };
    let weight = spawns + c.s.weight() + c.pre.iter().map(S::weight).sum::<usize>();
    for (i, st) in gen::cycled(&c.steps, c.again, |_| 40 + weight).enumerate() {
        match st {
            Step::Run(l) | Step::NoRng(l) => {
                let mut kept = [None, None, None, None];
                let rs = [&mut ra, &mut rb, &mut ro, &mut rc];
                if matches!(st, Step::NoRng(_)) {
                    for (k, r) in kept.iter_mut().zip(rs) {
                        *k = r.rng.take();
                    }
                }
                let direct = i % 2 == 0;
                let x = run(&mut *a, l, &mut ra, direct);
                let (y, z) = {
                    let mut second = || (run(&mut *b, l, &mut rb, direct), run(&mut copy, l, &mut rc, direct));
                    if thread {
                        std::thread::scope(|sc| sc.spawn(|| second()).join().map_err(|_| "panic on the other thread".to_string()))?
                    } else {
                        second()
                    }
                };
                let w = run(&mut one, l, &mut ro, direct);
                agree(i, &x, &y, "equally built samplers differ")?;
                agree(i, &w, &z, "a sampler and its copy differ")?;
                runs += 1;
                picked |= l.vals.expand().len() > 1;
                if matches!(st, Step::NoRng(_)) {
                    for (r, k) in [&mut ra, &mut rb, &mut ro, &mut rc].into_iter().zip(kept) {
                        r.rng = k;
                    }
                }
            }
            Step::Noise(s, l, seed) => {
                let mut l = l.build();
                let mut res = res::simple(Some(*seed), Some(vec![1, 2, 3, 1, 2, 3]));
                let _ = with_sampler!(s, &[1, 2, 3], |s| s.sample_token(&mut res, &mut l).is_ok());
                // The same kind of sampler with other data, too.
                let _ = c.s.boxed(ids).as_mut().sample_token(&mut res, &mut l).is_ok();
                let _ = copy.clone().sample_token(&mut res, &mut l).is_ok();
                cov.label("noise");
            }
            Step::CloneNow => {
                copy = one.clone();
                cov.label_if(runs > 0, "cloned mid-sequence");
            }
            Step::OtherThread => {
                thread = true;
                cov.label("other thread");
            }
            Step::History(t) => {
                let t = gen::resolve(*t, ids);
                for r in [&mut ra, &mut rb, &mut ro, &mut rc] {
                    if let Some(h) = r.hist.as_mut().filter(|_| i < c.steps.len() + 30) {
                        h.push(t);
                    }
                }
            }
        }
    }
    cov.nontrivial_if(runs > 1 && picked);
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C24";
    const RULE: &'static str = "Two equally built samplers or chains, and a sampler with its clone taken at a random step, fed up to 7 equal lists with equally seeded generators, other samplers running in between, partly on another thread; lists, tokens, errors and generator positions compared by bits. Non-trivial: two or more runs, one on two or more tokens.";
    const QUICK: u64 = 30_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let step = prop_oneof![
            8 => gen::lin_short().prop_map(Step::Run),
            1 => gen::lin(0).prop_map(Step::Run),
            1 => gen::lin_short().prop_map(Step::NoRng),
            2 => (gen::s_any(), gen::lin_short(), any::<u64>()).prop_map(|(s, l, x)| Step::Noise(s, l, x)),
            2 => Just(Step::CloneNow),
            2 => any::<u16>().prop_map(Step::History),
        ];
        let steps = prop_oneof![
            9 => gen::seq(step.clone(), 2..8, 8..80, 300),
            1 => vec(step, 2..8).prop_map(|mut v| { v.insert(0, Step::OtherThread); v }),
        ];
        let s = prop_oneof![2 => gen::s_any(), 2 => gen::s_pick(), 1 => gen::s_penalty()];
        (vec(gen::s_any(), 0..4), s, steps, gen::hist(), any::<u64>(), any::<bool>(), gen::again())
            .prop_map(|(pre, s, steps, hist, seed, chain, again)| Case { pre, s, steps, hist, seed, chain, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let ids: Vec<u32> = (0..20).collect();
        with_sampler!(&c.s, &ids, |s| {
            check_with(s, c, &ids, cov)
        })
    }
}

fn main() {
    harness::run::main::<P>()
}
