//! C22: a reported token always comes from the latest call.
use std::sync::{Arc, Mutex};

use harness::{custom::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Form {
    Plain,
    Boxed,
    Shared,
    /// Last of a chain, after these samplers.
    Chain(Vec<S>),
    /// The same with a sampler in front that fails from the nth call on.
    FailingChain(usize, Vec<S>),
    /// After another selecting sampler.
    AfterPick(S),
    Nested(Vec<S>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Step {
    Good(LIn),
    Empty,
    /// No generator at hand.
    NoRng(LIn),
    /// Nothing can be picked by weight.
    AllBanned(u8),
    /// Infinite weight.
    PlusInf(LIn),
    /// Some (by bits) or all logits NaN.
    Nan(LIn, Option<u16>),
    /// n_vocab option of mirostat 1.
    Vocab(u16),
    /// Any option: which, the value as integer or float.
    Opt(u8, u16, F),
    Push(S),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    s: S,
    form: Form,
    steps: Vec<(Step, bool)>,
    seed: u64,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

struct Run<'a> {
    res: SimpleSamplerResources,
    nores: SimpleSamplerResources,
    c: &'a Case,
    cov: &'a mut Cov,
}

enum Edit {
    Vocab(usize),
    Opt(u8, u16, f32),
}

/// A selecting sampler is last (a pushed filter ends that).
fn drive(
    s: &mut dyn Sampler,
    mut set: impl FnMut(Edit) -> bool,
    mut push: impl FnMut(&mut dyn Sampler, &S) -> Option<bool>,
    r: Run<'_>,
) -> Outcome {
    let Run { mut res, mut nores, c, cov } = r;
    let mut selects = true;
    // Mirostat 1 with m = 0 looks at no token.
    let mut idle = false;
    let (mut had, mut lost) = (false, false);
    ensure!(s.sampled_token_id().is_none(), "reports {:?} before any call", s.sampled_token_id());
    for (i, (step, direct)) in gen::cycled(&c.steps, c.again, |_| 40).enumerate() {
        let old = s.sampled_token_id();
        // Ids are new in every step, so an old token is seen to be old.
        let place = |l: &LIn| {
            let mut l = l.clone();
            l.ids = Ids::Offset((i as u32 % 4000 + 1) * 1_000_000);
            l
        };
        let (mut l, with_rng) = match step {
            Step::Good(l) => (place(l).build(), true),
            Step::NoRng(l) => (place(l).build(), false),
            Step::Empty => (Logits::default(), true),
            Step::AllBanned(n) => (
                place(&LIn { vals: Vals::Explicit(vec![F(f32::NEG_INFINITY); *n as usize + 1]), ids: Ids::Identity, prep: Prep::Raw, stale: 1, again: 0 }).build(),
                true,
            ),
            Step::PlusInf(l) => {
                let mut l = place(l).build();
                if let Some(x) = l.first_mut() {
                    x.logit = f32::INFINITY;
                    l.set_sorted(false);
                    l.set_softmax(false);
                }
                (l, true)
            }
            Step::Nan(l, some) => {
                let mut l = place(l).build();
                for (i, x) in l.iter_mut().enumerate() {
                    if some.is_none_or(|s| s >> (i % 16) & 1 == 1) {
                        x.logit = f32::NAN;
                    }
                }
                l.set_sorted(false);
                l.set_softmax(false);
                (l, true)
            }
            Step::Vocab(n) => {
                idle = set(Edit::Vocab(*n as usize));
                continue;
            }
            Step::Opt(at, i, x) => {
                idle = set(Edit::Opt(*at, *i, x.0));
                continue;
            }
            Step::Push(_) if i > 300 => continue,
            Step::Push(x) => {
                match push(s, x) {
                    Some(sel) => selects = sel,
                    None => continue,
                }
                ensure!(s.sampled_token_id().is_none(), "step {i}: {:?} reported after the chain was extended", s.sampled_token_id());
                cov.label("chain extended");
                continue;
            }
        };
        let n = l.len();
        let (first, last) = ((i as u32 % 4000 + 1) * 1_000_000, (i as u32 % 4000 + 1) * 1_000_000 + n as u32);
        let res: &mut dyn HasSamplerResources = if with_rng { &mut res } else { &mut nores };
        let got = if *direct {
            s.sample_token(res, &mut l)
        } else {
            s.sample(res, &mut l).map(|_| ()).map(|_| s.sampled_token_id())
        };
        let now = s.sampled_token_id();
        match got {
            Ok(t) => {
                ensure!(t == now, "step {i}: returned {t:?}, afterwards reports {now:?}");
                if !selects {
                    ensure!(t.is_none(), "step {i}: {t:?} although the last sampler selects nothing");
                    continue;
                }
                match t {
                    Some(t) => {
                        ensure!(
                            (first..last).contains(&t) && l.iter().any(|x| x.token_id == t),
                            "step {i}: reports {t}, which is not in the list processed ({first}.., {} left of {n}; before: {old:?})",
                            l.len()
                        );
                        had = true;
                    }
                    None => {
                        ensure!(
                            idle || matches!(step, Step::Nan(..)) || l.iter().all(|x| x.logit.is_nan()),
                            "step {i}: no token for a list of {n}, {} left", l.len()
                        );
                        lost |= had;
                    }
                }
            }
            Err(e) => {
                ensure!(now.is_none(), "step {i}: failed ({e}) but reports {now:?} (before: {old:?})");
                cov.label("failed");
                lost |= had;
            }
        }
    }
    cov.nontrivial_if(lost);
    Ok(())
}

fn check_with<T: Sampler + ConfigurableSampler<usize, f32> + Clone + 'static>(mut t: T, c: &Case, cov: &mut Cov) -> Outcome {
    let run = Run { res: res::simple(Some(c.seed), Some(vec![1, 2, 3])), nores: res::simple(None, Some(vec![1, 2])), c, cov };
    let shared = Arc::new(Mutex::new(t.clone()));
    let handle = shared.clone();
    // Whether the sampler may select nothing from now on.
    let vocab = move |e: Edit| {
        let mut s = handle.lock().unwrap();
        let options: Vec<_> = s.sampler_metadata().options.iter().map(|o| (o.key, o.option_type.clone())).collect();
        match e {
            Edit::Vocab(n) => drop(s.set_option("n_vocab", SamplerOptionValue::UInt(n as u64))),
            Edit::Opt(at, i, x) => {
                if let Some((key, ty)) = options.get(at as usize % options.len().max(1)) {
                    let v = match ty {
                        SamplerOptionType::UInt => SamplerOptionValue::UInt(i as u64),
                        _ => SamplerOptionValue::Float(x as f64),
                    };
                    let _ = s.set_option(key, v);
                }
            }
        }
        matches!(s.get_option("m"), Ok(SamplerOptionValue::UInt(0)))
    };
    let mut chain = SamplerChain::new();
    let ids: [u32; 0] = [];
    let mut fill = |chain: &mut SamplerChain, pre: &[S]| {
        for p in pre {
            chain.push_sampler(p.boxed(&ids));
        }
    };
    match &c.form {
        // A plain sampler cannot be configured while it is borrowed.
        Form::Plain => return drive(&mut t, |_| false, |_, _| None, run),
        Form::Boxed => {
            let mut b: Box<dyn Sampler> = Box::new(t);
            return drive(&mut b, |_| false, |_, _| None, run);
        }
        Form::Shared => {
            let mut a: Arc<Mutex<dyn Sampler>> = shared;
            return drive(&mut a, vocab, |_, _| None, run);
        }
        Form::Chain(pre) => fill(&mut chain, pre),
        Form::FailingChain(at, pre) => {
            chain += Failing { at: *at, calls: 0, fail: Fail::Interrupted(vec![9]), token: None };
            fill(&mut chain, pre);
        }
        Form::AfterPick(p) => fill(&mut chain, std::slice::from_ref(p)),
        Form::Nested(pre) => {
            let mut inner = SamplerChain::new();
            fill(&mut inner, pre);
            let a: Arc<Mutex<dyn Sampler>> = shared.clone();
            inner += a;
            chain += inner;
            let mut chain = Arc::new(Mutex::new(chain));
            return drive_chain(&mut chain, vocab, run);
        }
    }
    let a: Arc<Mutex<dyn Sampler>> = shared;
    chain += a;
    let mut chain = Arc::new(Mutex::new(chain));
    drive_chain(&mut chain, vocab, run)
}

/// Drives a chain that can be extended on the way.
fn drive_chain(chain: &mut Arc<Mutex<SamplerChain>>, vocab: impl FnMut(Edit) -> bool, run: Run<'_>) -> Outcome {
    let inner = chain.clone();
    let mut dynamic: Arc<Mutex<dyn Sampler>> = chain.clone();
    drive(
        &mut dynamic,
        vocab,
        move |_, x| {
            inner.lock().unwrap().push_sampler(x.boxed(&[]));
            Some(x.picks())
        },
        run,
    )
}

struct P;
impl Prop for P {
    const ID: &'static str = "C22";
    const RULE: &'static str = "One selecting sampler, alone, boxed, shared, or ending a chain (also after a failing or another selecting sampler, or nested), through 2 to 8 calls with good, empty, generator-less, all-banned, infinite and NaN lists with ids never used before, options edited in between, growing chains. Non-trivial: a call that must report nothing came after one that reported a token.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let pre = || {
            vec(
                prop_oneof![
                    3 => gen::s_filter(prop_oneof![3 => 1usize..5, 1 => Just(0usize)].boxed()),
                    1 => gen::temp().prop_map(S::Temp),
                    1 => gen::s_penalty(),
                ],
                0..3,
            )
        };
        let form = prop_oneof![
            2 => Just(Form::Plain),
            1 => Just(Form::Boxed),
            3 => Just(Form::Shared),
            3 => pre().prop_map(Form::Chain),
            2 => (0usize..5, pre()).prop_map(|(n, p)| Form::FailingChain(n, p)),
            1 => gen::s_pick().prop_map(Form::AfterPick),
            2 => pre().prop_map(Form::Nested),
        ];
        let step = prop_oneof![
            8 => gen::lin_short().prop_map(Step::Good),
            3 => Just(Step::Empty),
            2 => gen::lin_short().prop_map(Step::NoRng),
            2 => (0u8..5).prop_map(Step::AllBanned),
            1 => gen::lin_short().prop_map(Step::PlusInf),
            1 => (gen::lin_short(), gen::opt(any::<u16>().boxed())).prop_map(|(l, m)| Step::Nan(l, m)),
            2 => prop_oneof![Just(0u16), 2u16..2000].prop_map(Step::Vocab),
            2 => (any::<u8>(), prop_oneof![1 => Just(0u16), 1 => 1u16..200], prop_oneof![-4f32..8.0, Just(0f32)].prop_map(F)).prop_map(|(a, i, x)| Step::Opt(a, i, x)),
            1 => prop_oneof![gen::s_pick(), gen::temp().prop_map(S::Temp), gen::s_filter((1usize..4).boxed())].prop_map(Step::Push),
        ];
        (gen::s_pick(), form, gen::seq((step, any::<bool>()), 2..9, 9..80, 300), any::<u64>(), gen::again())
            .prop_map(|(s, form, steps, seed, again)| Case { s, form, steps, seed, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        with_sampler!(&c.s, &[], |s| check_with(s, c, cov))
    }
}

fn main() {
    harness::run::main::<P>()
}
