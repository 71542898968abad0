//! C39: the thousandth step of a generation is made like the first.
use std::sync::{Arc, Mutex};

use harness::{custom::err_text, opts::V, prelude::*, run::splitmix};
use rand::{rngs::StdRng, RngCore, SeedableRng};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Form {
    Parts,
    Chain,
    Nested,
    Shared,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    samplers: Vec<S>,
    form: Form,
    steps: u32,
    /// Lists have up to this many entries.
    width: u16,
    /// Every list is the same.
    same: bool,
    /// Tokens in the history at first.
    start: u16,
    /// The history does not grow beyond this.
    cap: u32,
    /// Of 256 steps, how many ask for something that is not there.
    absent: u8,
    seed: u64,
}

/// Mirostat's mu from the outside.
enum Mu {
    One(Arc<Mutex<SampleMirostat1>>),
    Two(Arc<Mutex<SampleMirostat2>>),
}

impl Mu {
    fn get(&self) -> f64 {
        let v = match self {
            Mu::One(s) => s.lock().unwrap().get_option("mu").map(|v| V::from_option(v)),
            Mu::Two(s) => s.lock().unwrap().get_option("mu").map(|v| V::from_option(v)),
        };
        match v {
            Ok(V::F(d)) => d.0,
            _ => f64::NAN,
        }
    }
    fn set(&self, to: f64) {
        let v = SamplerOptionValue::Float(to);
        let _ = match self {
            Mu::One(s) => s.lock().unwrap().set_option("mu", v),
            Mu::Two(s) => s.lock().unwrap().set_option("mu", v),
        };
    }
}

/// The samplers, and the handles of those that learn.
fn make(specs: &[S], ids: &[u32]) -> (Vec<Box<dyn Sampler>>, Vec<Mu>) {
    let mut mus = vec![];
    let parts = specs
        .iter()
        .map(|s| match s {
            S::Miro1 { n_vocab, tau, eta } => {
                let m = Arc::new(Mutex::new(SampleMirostat1::new(*n_vocab, tau.0, eta.0)));
                mus.push(Mu::One(m.clone()));
                Box::new(m as Arc<Mutex<dyn Sampler>>) as Box<dyn Sampler>
            }
            S::Miro2 { tau, eta } => {
                let m = Arc::new(Mutex::new(SampleMirostat2::new(tau.0, eta.0)));
                mus.push(Mu::Two(m.clone()));
                Box::new(m as Arc<Mutex<dyn Sampler>>)
            }
            s => s.boxed(ids),
        })
        .collect();
    (parts, mus)
}

#[derive(Debug)]
struct Res<'a> {
    rng: Option<StdRng>,
    hist: Option<&'a Vec<u32>>,
}

impl HasSamplerResources for Res<'_> {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        self.rng.as_mut().map(|r| fun(r)).ok_or_else(|| SamplerError::MissingResource("rng".into()))
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        self.hist.map(fun).ok_or_else(|| SamplerError::MissingResource("last_tokens".into()))
    }
}

type Said = Result<Option<u32>, String>;

fn each(parts: &mut [Box<dyn Sampler>], res: &mut Res, l: &mut Logits) -> Said {
    let mut token = None;
    for p in parts {
        token = p.sample_token(res, l).map_err(|e| err_text(&e))?;
    }
    Ok(token)
}

struct P;
impl Prop for P {
    const ID: &'static str = "C39";
    const RULE: &'static str = "Generations of 50 to 5000 (rarely 70000) steps with one set of 1 to 5 samplers, run one by one, as a chain, as a chain of chains or behind a shared lock: short lists from a seed, the picked token appended to the history, now and then an absent resource or an empty list; every step is compared by bits (list, flags, token, error, generator, mu) with samplers made for that step. Non-trivial: a thousand steps or more with a token picked in most of them.";
    const QUICK: u64 = 400;
    type Case = Case;

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let steps = prop_oneof![4 => 50u32..600, 8 => 600u32..2500, 3 => 2500u32..5000];
        let steps = match t {
            Tier::Quick => prop_oneof![150 => steps, 1 => 65_500u32..70_000].boxed(),
            _ => prop_oneof![60 => steps, 2 => 65_500u32..70_000, 1 => 130_000u32..140_000].boxed(),
        };
        let cap_n = |s: S| match s {
            S::SeqRep { flat, stack, min_length, tolerance, max_merge, last_n } => {
                S::SeqRep { flat, stack, min_length: min_length.max(2), tolerance: tolerance.min(3), max_merge: max_merge.min(3), last_n: last_n.min(24) }
            }
            S::Rep { penalty, last_n } => S::Rep { penalty, last_n: last_n.min(400) },
            S::FreqPres { freq, pres, last_n } => S::FreqPres { freq, pres, last_n: last_n.min(400) },
            s => s,
        };
        let other = || prop_oneof![2 => gen::s_bias(true), 3 => gen::s_penalty(), 4 => gen::s_filter((0usize..5).boxed()), 2 => gen::temp().prop_map(S::Temp)];
        (
            (vec(other().prop_map(cap_n), 0..5), gen::s_pick()).prop_map(|(mut v, p)| {
                v.push(p);
                v
            }),
            proptest::sample::select(vec![Form::Parts, Form::Chain, Form::Nested, Form::Shared]),
            steps,
            prop_oneof![3 => 1u16..6, 3 => 6u16..24],
            proptest::bool::weighted(0.2),
            0u16..80,
            prop_oneof![1 => 0u32..20, 2 => 20u32..600, 1 => Just(u32::MAX)],
            prop_oneof![2 => Just(0u8), 1 => 1u8..20],
            any::<u64>(),
        )
            .prop_map(|(samplers, form, steps, width, same, start, cap, absent, seed)| Case { samplers, form, steps, width, same, start, cap, absent, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut s = c.seed;
        let width = c.width.max(1) as u64;
        let ids: Vec<u32> = (0..width as u32).collect();
        let (parts, mus) = make(&c.samplers, &ids);
        let (mut parts, mut whole): (_, Option<Box<dyn Sampler>>) = match c.form {
            Form::Parts => (parts, None),
            form => {
                let mut chain = SamplerChain::new();
                let (mut inner, n) = (SamplerChain::new(), parts.len());
                for (i, p) in parts.into_iter().enumerate() {
                    if form == Form::Nested && i < n / 2 {
                        inner += p;
                        if i + 1 == n / 2 {
                            chain += std::mem::take(&mut inner);
                        }
                    } else {
                        chain += p;
                    }
                }
                (vec![], Some(if form == Form::Shared { Box::new(Arc::new(Mutex::new(chain)) as Arc<Mutex<dyn Sampler>>) } else { Box::new(chain) }))
            }
        };
        let mut hist: Vec<u32> = (0..c.start).map(|_| (splitmix(&mut s) % (width + 2)) as u32).collect();
        let mut rng = StdRng::seed_from_u64(c.seed);
        let (mut picked, mut list_seed) = (0, s);
        for i in 0..c.steps {
            if !c.same {
                list_seed = splitmix(&mut s);
            }
            let mut d = list_seed;
            let n = match splitmix(&mut d) % 64 {
                0 => 0,
                r => (r % width + 1) as usize,
            };
            let l = Logits::try_from_iter((0..n).map(|_| {
                let r = splitmix(&mut d);
                // Sixteenths, now and then banned.
                if r % 40 == 0 { f32::NEG_INFINITY } else { ((r >> 8) % 257) as f32 / 16.0 - 8.0 }
            }))
            .map_err(|e| e.to_string())?;
            let lacks = (splitmix(&mut d) & 0xff) < c.absent as u64;
            let no_rng = lacks && splitmix(&mut d) % 2 == 0;
            let r = || Res { rng: (!no_rng).then(|| rng.clone()), hist: (!lacks || no_rng).then_some(&hist) };
            let (mut r1, mut r2) = (r(), r());
            let (mut l1, mut l2) = (l.clone(), l.clone());
            let (mut fresh, fresh_mus) = make(&c.samplers, &ids);
            mus.iter().zip(&fresh_mus).for_each(|(a, b)| b.set(a.get()));
            let want = each(&mut fresh, &mut r2, &mut l2);
            let got = match &mut whole {
                None => each(&mut parts, &mut r1, &mut l1),
                Some(w) => {
                    let got = w.sample_token(&mut r1, &mut l1).map_err(|e| err_text(&e));
                    ensure!(
                        w.sampled_token_id() == got.clone().ok().flatten(),
                        "step {i}: the call gives {got:?}, reported is {:?}", w.sampled_token_id()
                    );
                    got
                }
            };
            ensure!(got == want, "step {i} of {:?}: {got:?}, with new samplers {want:?}", c.form);
            check_identical(&l1, &l2).map_err(|e| format!("step {i}: used against new: {e}"))?;
            ensure!(r1.rng == r2.rng, "step {i}: the generators are at different positions");
            for (a, b) in mus.iter().zip(&fresh_mus) {
                let (a, b) = (a.get(), b.get());
                ensure!(a.to_bits() == b.to_bits(), "step {i}: mu became {a:?}, of a new sampler {b:?}");
            }
            if let Some(g) = r1.rng {
                rng = g;
            }
            if let Ok(Some(t)) = got {
                picked += 1;
                hist.push(t);
                if hist.len() as u64 > c.cap as u64 {
                    hist.remove(0);
                }
            }
        }
        cov.nontrivial_if(c.steps >= 1000 && picked * 2 > c.steps);
        cov.label_if(c.steps > 65_000, "more than 65000 steps");
        cov.label_if(hist.len() > 1000, "history of more than 1000 tokens");
        cov.label_if(!mus.is_empty(), "mirostat");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
