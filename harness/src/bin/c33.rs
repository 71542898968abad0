//! C33: nothing is carried over from earlier calls but what is documented.
use harness::{custom::err_text, opts::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Src {
    New(LIn),
    /// The previous input once more, some logits moved (place, by how much).
    Moved(Vec<(u16, F)>),
    /// The previous input in another order.
    Swapped(u16, u16),
    /// The list object the last call worked on, as it was left, some logits moved.
    Same(Vec<(u16, F)>),
    /// The same, with the ids of two places exchanged.
    Renamed(u16, u16),
    /// The previous input with the same best and worst logit and length, the
    /// others merged, split, shared out, exchanged or replaced.
    Reshaped(Vec<(u8, u16, u16)>),
    Empty,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum HSrc {
    New(Hist),
    Keep,
    Push(u16),
    /// One in front leaves, one comes in at the end.
    Slide(u16),
    /// Another token at this place.
    Other(u16, u16),
    Swap(u16, u16),
    Pop,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Step {
    Run { src: Src, hist: HSrc, no_rng: bool, no_hist: bool, direct: bool },
    /// An option and its new value (as integer or float).
    Edit(u8, u64, F),
    /// One entry of a bias list is put at a place, replaced or taken out.
    Bias { at: u8, how: u8, tok: u16, v: F },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum What {
    Options(Which, Vec<V>),
    Bias(Vec<(u16, F)>),
    Chain(Vec<S>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    what: What,
    steps: Vec<Step>,
    seed: u64,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

/// The sampler in use.
enum Used {
    O(Which, Buildable),
    B(SampleFlatBias),
    C(Vec<S>, SamplerChain),
}

fn chain_of(specs: &[S], ids: &[u32]) -> SamplerChain {
    let mut c = SamplerChain::new();
    specs.iter().for_each(|s| c += s.boxed(ids));
    c
}

impl Used {
    /// One that was never used, with the same options.
    fn anew(&self, ids: &[u32]) -> Result<Used, String> {
        Ok(match self {
            Used::O(w, s) => Used::O(*w, build_with(*w, &read(*w, s)?, false)),
            Used::B(s) => Used::B(SampleFlatBias::new(s.iter().copied())),
            Used::C(specs, _) => Used::C(specs.clone(), chain_of(specs, ids)),
        })
    }
    fn sampler(&mut self) -> &mut dyn Sampler {
        match self {
            Used::O(_, s) => s,
            Used::B(s) => s,
            Used::C(_, s) => s,
        }
    }
    fn state(&self) -> Result<Vec<V>, String> {
        match self {
            Used::O(w, s) => read(*w, s),
            _ => Ok(vec![]),
        }
    }
}

fn read(w: Which, s: &Buildable) -> Result<Vec<V>, String> {
    documented(w).iter().map(|(k, _)| s.get_option(k).map(V::from_option).map_err(|e| e.to_string())).collect()
}

/// The same entries and flags in a list object of its own.
fn rebuilt(l: &Logits) -> Logits {
    let mut n = Logits::default();
    n.extend(l.iter().cloned());
    n.set_sorted(l.get_sorted());
    n.set_softmax(l.get_softmax());
    n
}

fn moved(l: &mut Logits, by: &[(u16, F)]) {
    let n = l.len();
    if n == 0 || by.is_empty() {
        return;
    }
    for (at, d) in by {
        let x = &mut l[*at as usize % n];
        if (x.logit + d.0).is_finite() {
            x.logit += d.0;
        }
    }
    l.set_softmax(false);
    if l.windows(2).any(|w| w[0].logit < w[1].logit) {
        l.set_sorted(false);
    }
}

/// Only places between the best and the worst change.
fn reshaped(l: &mut Logits, by: &[(u8, u16, u16)]) {
    let n = l.len();
    if n < 4 {
        return;
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| l[*b].logit.total_cmp(&l[*a].logit));
    let (max, min) = (l[order[0]].logit, l[order[n - 1]].logit);
    for (kind, a, b) in by {
        let (a, b) = (order[1 + *a as usize % (n - 2)], order[1 + *b as usize % (n - 2)]);
        let (x, y) = (l[a].logit, l[b].logit);
        let (x, y) = match kind % 5 {
            // The two weights in one place.
            0 if a != b && x.is_finite() => ((1.0 + (y - x).exp()).log2() * std::f32::consts::LN_2 + x, min),
            // Half of one goes to the other, which loses what it had.
            1 => (x - std::f32::consts::LN_2, x - std::f32::consts::LN_2),
            2 => (y, x),
            3 => (max - std::f32::consts::LN_2 * (1 + n % 3) as f32, y),
            _ => (x, (x + y) / 2.0),
        };
        for (i, v) in [(a, x), (b, y)] {
            if !v.is_nan() && v <= max && v >= min {
                l[i].logit = v;
            }
        }
    }
    l.set_softmax(false);
    if l.windows(2).any(|w| w[0].logit < w[1].logit) {
        l.set_sorted(false);
    }
}

fn call(s: &mut dyn Sampler, res: &mut res::Counting, l: &mut Logits, direct: bool) -> (Result<Option<u32>, String>, Option<u32>) {
    let r = if direct { s.sample_token(res, l) } else { s.sample(res, l).map(|_| ()).map(|_| s.sampled_token_id()) };
    (r.map_err(|e| err_text(&e)), s.sampled_token_id())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C33";
    const RULE: &'static str = "Up to 9 (rarely 60) steps with one sampler, bias list or chain: lists that are new, slightly changed from the last, with the same ends and length but other weights between, or the very object the last call left, histories that slide or change inside, absent resources, options and biases edited in between; every call is repeated with a sampler, a list and resources never used before, and compared by bits. Non-trivial: a later call on two or more tokens whose input resembles an earlier one or whose options changed.";
    const QUICK: u64 = 150_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let by = || vec((any::<u16>(), prop_oneof![3 => gen::amount(), 1 => (-0.5f32..0.5).prop_map(F)]), 0..4);
        let src = prop_oneof![
            4 => gen::lin_short().prop_map(Src::New),
            2 => (gen::dyadic(), gen::ids(), gen::prep(), 0u8..6).prop_map(|(vals, ids, prep, stale)| Src::New(LIn { vals, ids, prep, stale, again: 0 })),
            4 => vec((any::<u8>(), any::<u16>(), any::<u16>()), 1..5).prop_map(Src::Reshaped),
            4 => by().prop_map(Src::Moved),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Src::Swapped(a, b)),
            5 => by().prop_map(Src::Same),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Src::Renamed(a, b)),
            1 => Just(Src::Empty),
        ];
        let tok = || prop_oneof![3 => 0u16..12, 1 => any::<u16>()];
        let hist = prop_oneof![
            3 => gen::hist().prop_map(HSrc::New),
            2 => Just(HSrc::Keep),
            2 => tok().prop_map(HSrc::Push),
            2 => tok().prop_map(HSrc::Slide),
            2 => (any::<u16>(), tok()).prop_map(|(a, t)| HSrc::Other(a, t)),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| HSrc::Swap(a, b)),
            1 => Just(HSrc::Pop),
        ];
        let rare = || proptest::bool::weighted(0.06);
        let run = (src, hist, rare(), rare(), any::<bool>())
            .prop_map(|(src, hist, no_rng, no_hist, direct)| Step::Run { src, hist, no_rng, no_hist, direct });
        let steps = move |what: What| {
            let edit = match &what {
                What::Options(w, _) if !documented(*w).is_empty() => {
                    (any::<u8>(), 0u64..12, prop_oneof![3 => 0.0f32..2.0, 1 => -2.0f32..8.0].prop_map(F)).prop_map(|(i, u, f)| Step::Edit(i, u, f)).boxed()
                }
                _ => (any::<u8>(), 0u8..6, 0u16..40, prop_oneof![3 => gen::amount(), 1 => Just(F(f32::NEG_INFINITY))])
                    .prop_map(|(at, how, tok, v)| Step::Bias { at, how, tok, v })
                    .boxed(),
            };
            (Just(what), gen::seq(prop_oneof![5 => run.clone(), 2 => edit].boxed(), 2..10, 10..60, 100), any::<u64>(), gen::again())
        };
        let stateless = gen::s_any().prop_filter("no learning", |s| !matches!(s, S::Miro1 { .. } | S::Miro2 { .. }));
        let what = prop_oneof![
            6 => which().prop_flat_map(|w| values_for(w).prop_map(move |v| What::Options(w, v))),
            1 => vec((0u16..40, prop_oneof![3 => gen::amount(), 1 => Just(F(f32::NEG_INFINITY))]), 0..6).prop_map(What::Bias),
            2 => vec(stateless, 1..5).prop_map(What::Chain),
        ];
        what.prop_flat_map(steps).prop_map(|(what, steps, seed, again)| Case { what, steps, seed, again }).boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let fixed: Vec<u32> = (0..20).collect();
        let bias = |b: &[(u16, F)]| SampleFlatBias::new(b.iter().map(|(t, v)| (gen::resolve(*t, &fixed), v.0)));
        let mut used = match &c.what {
            What::Options(w, v) => Used::O(*w, build_with(*w, v, true)),
            What::Bias(b) => Used::B(bias(b)),
            What::Chain(s) => Used::C(s.clone(), chain_of(s, &fixed)),
        };
        let mut res = res::Counting::new(Some(c.seed), Some(vec![]));
        let (mut input, mut left) = (Logits::default(), Logits::default());
        let mut tokens: Vec<u32> = vec![];
        let (mut runs, mut edited) = (0, false);
        let weight = match &c.what {
            // Edits may still make the window as long as any.
            What::Options(Which::SeqRep, v) => {
                let n = v.iter().filter_map(|v| if let V::U(u) = v { Some(*u as usize) } else { None }).max().unwrap_or(0);
                n.clamp(12, 400).pow(3) / 100
            }
            What::Chain(s) => s.iter().map(S::weight).sum(),
            _ => 0,
        };
        for (i, st) in gen::cycled(&c.steps, c.again, |_| 30 + weight).enumerate() {
            match st {
                Step::Edit(k, u, f) => {
                    let Used::O(w, s) = &mut used else { continue };
                    let doc = documented(*w);
                    if doc.is_empty() {
                        continue;
                    }
                    let (key, t) = doc[*k as usize % doc.len()];
                    let v = if t == Ty::U { V::U(*u) } else { V::F(D(f.0 as f64)) };
                    s.set_option(key, v.option()).map_err(|e| format!("step {i}: setting {key}: {e}"))?;
                    edited = true;
                }
                Step::Bias { at, how, tok, v } => {
                    let Used::B(s) = &mut used else { continue };
                    let e = (gen::resolve(*tok, &fixed), v.0);
                    let at = *at as usize;
                    let n = s.len();
                    match how {
                        // Repeated for long, the list stays short.
                        0 | 1 if i >= c.steps.len() && n > 40 => s.truncate(20),
                        0 | 1 => s.insert(at % (n + 1), e),
                        2 if n > 0 => s[at % n].1 = e.1,
                        3 if n > 0 => s[at % n] = e,
                        4 if n > 0 => {
                            s.remove(at % n);
                        }
                        _ => s.clear(),
                    }
                    edited = true;
                }
                Step::Run { src, hist, no_rng, no_hist, direct } => {
                    let mut alike = true;
                    let mut list = match src {
                        Src::New(l) => {
                            alike = false;
                            l.build()
                        }
                        Src::Moved(by) => {
                            let mut l = rebuilt(&input);
                            moved(&mut l, by);
                            l
                        }
                        Src::Swapped(a, b) => {
                            let mut l = rebuilt(&input);
                            let n = l.len();
                            if n > 1 {
                                l.swap(*a as usize % n, *b as usize % n);
                                l.set_sorted(false);
                            }
                            l
                        }
                        Src::Same(by) => {
                            let mut l = std::mem::take(&mut left);
                            moved(&mut l, by);
                            l
                        }
                        Src::Renamed(a, b) => {
                            let mut l = std::mem::take(&mut left);
                            let n = l.len();
                            if n > 1 {
                                let (a, b) = (*a as usize % n, *b as usize % n);
                                let t = l[a].token_id;
                                l[a].token_id = l[b].token_id;
                                l[b].token_id = t;
                            }
                            l
                        }
                        Src::Reshaped(by) => {
                            let mut l = rebuilt(&input);
                            reshaped(&mut l, by);
                            l
                        }
                        Src::Empty => Logits::default(),
                    };
                    input = rebuilt(&list);
                    let ids: Vec<u32> = list.iter().map(|x| x.token_id).collect();
                    let (n, at) = (tokens.len().max(1), |x: &u16| *x as usize);
                    match hist {
                        HSrc::New(h) => tokens = h.expand(&ids),
                        HSrc::Keep => (),
                        HSrc::Push(t) => tokens.push(gen::resolve(*t, &ids)),
                        HSrc::Slide(t) => {
                            if !tokens.is_empty() {
                                tokens.remove(0);
                            }
                            tokens.push(gen::resolve(*t, &ids));
                        }
                        HSrc::Other(a, t) if !tokens.is_empty() => tokens[at(a) % n] = gen::resolve(*t, &ids),
                        HSrc::Swap(a, b) if !tokens.is_empty() => tokens.swap(at(a) % n, at(b) % n),
                        HSrc::Other(..) | HSrc::Swap(..) => (),
                        HSrc::Pop => {
                            tokens.pop();
                        }
                    }
                    if tokens.len() > 400 {
                        tokens.drain(..300);
                    }
                    let held = if *no_rng { res.rng.take() } else { None };
                    res.hist = (!no_hist).then(|| tokens.clone());
                    let mut other = used.anew(&fixed)?;
                    let mut r2 = res::Counting::new(None, res.hist.clone());
                    r2.rng = res.rng.clone();
                    let mut l2 = rebuilt(&list);
                    let got = call(used.sampler(), &mut res, &mut list, *direct);
                    let want = call(other.sampler(), &mut r2, &mut l2, *direct);
                    check_identical(&list, &l2).map_err(|e| format!("step {i}: used against new, on {:?}: {e}", brief(&input)))?;
                    ensure!(got == want, "step {i}: (result, reported token) of the used sampler {got:?}, of a new one {want:?}");
                    let (a, b) = (used.state()?, other.state()?);
                    ensure!(a == b, "step {i}: options of the used sampler became {a:?}, of a new one {b:?}");
                    ensure!(res.hist == r2.hist, "step {i}: histories {:?} against {:?}", res.hist, r2.hist);
                    ensure!(
                        res::rng_fingerprint(&mut Peek(&res)) == res::rng_fingerprint(&mut Peek(&r2)),
                        "step {i}: the generators are at different positions"
                    );
                    if let Some(r) = held {
                        res.rng = Some(r);
                    }
                    if input.len() > 1 {
                        cov.nontrivial_if(runs > 0 && (alike || edited));
                        cov.label_if(runs > 0 && alike, "input like the last");
                        cov.label_if(runs > 0 && edited, "options changed before");
                        cov.label_if(got.0.is_err(), "failed alike");
                        runs += 1;
                    }
                    left = list;
                }
            }
        }
        Ok(())
    }
}

fn brief(l: &Logits) -> Vec<(u32, f32)> {
    l.iter().take(12).map(|x| (x.token_id, x.logit)).collect()
}

/// Looks at a generator without moving it.
#[derive(Debug)]
struct Peek<'a>(&'a res::Counting);
impl HasSamplerResources for Peek<'_> {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn rand::RngCore)) -> Result<(), SamplerError> {
        if let Some(r) = &self.0.rng {
            fun(&mut r.clone());
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
