//! C30: any input is handled or refused with an error, never with a panic.
//!
//! The oracle is that every call returns; the supervisor in `run` turns a
//! process that dies or does not come to an end into a violation too.
use std::sync::{Arc, Mutex};

use harness::{custom::*, opts::*, prelude::*};
use rand::RngCore;

/// A list in any state the public interface lets a caller bring it in.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct WildList {
    entries: Vec<(u32, F, F)>,
    /// So many entries in all, the above again and again with other ids.
    #[serde(default)]
    many: u32,
    sorted: bool,
    softmax: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum WildSampler {
    Bias(Vec<(u32, F)>),
    BuiltIn(Which, Vec<V>, bool),
    Fails(Fail),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum ListOp {
    Sort,
    Softmax,
    Flags(bool, bool),
    Put(u16, F, F),
    Push(u32, F),
    Truncate(u16),
    Swap(u16, u16),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    List(ListOp),
    NewList(WildList),
    /// With the sampler alone, by reference to a trait object or not.
    Run(u8, bool),
    Prepend(u8),
    /// A chain of these, run this often.
    Chain(Vec<u8>, u8),
    Set(u8, Key, V),
    Get(u8, Key),
    Configure(u8, String),
    History(Vec<u32>),
    Build(Vec<F>, usize),
    Parse(Ty, String),
    Convert(D, u64, Nums),
    /// A builder with slots of these kinds and names, then these configurations.
    Slots(Vec<(String, u8, u8)>, Vec<(String, String)>, bool),
    OwnTable(Vec<(u8, Ty, bool)>, Nums, String, V),
    Rng(u8),
    Show,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    list: WildList,
    samplers: Vec<WildSampler>,
    hist: Option<Vec<u32>>,
    rng: u8,
    ops: Vec<Op>,
}

/// Generators a caller may bring along: none, an ordinary one, stuck ones.
#[derive(Debug)]
struct Rng(u8, rand::rngs::StdRng);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        match self.0 {
            1 => 0,
            2 => u32::MAX,
            _ => self.1.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.0 {
            1 => 0,
            2 => u64::MAX,
            _ => self.1.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.iter_mut().for_each(|b| *b = self.next_u32() as u8)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> std::result::Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn resources(rng: u8, hist: Option<Vec<u32>>) -> SimpleSamplerResources {
    use rand::SeedableRng;
    let r = (rng % 8 != 0).then(|| Box::new(Rng(rng % 8, rand::rngs::StdRng::seed_from_u64(rng as u64))) as Box<dyn RngCore + Send + Sync>);
    SimpleSamplerResources::new(r, hist)
}

impl WildList {
    fn build(&self) -> Logits {
        let mut l = Logits::default();
        l.extend(self.entries.iter().map(|(token_id, logit, prob)| Logit { token_id: *token_id, logit: logit.0, prob: prob.0 }));
        let n = self.entries.len();
        l.extend((n..self.many as usize).filter(|_| n > 0).map(|i| {
            let (_, logit, prob) = self.entries[i % n];
            Logit { token_id: i as u32, logit: logit.0, prob: prob.0 }
        }));
        l.set_sorted(self.sorted);
        l.set_softmax(self.softmax);
        l
    }
}

type Shared = Arc<Mutex<dyn Sampler>>;

/// A sampler that can also be configured.
enum Thing {
    Conf(Buildable),
    Plain(Box<dyn Sampler>),
}

impl Thing {
    fn new(w: &WildSampler) -> Self {
        match w {
            WildSampler::Bias(b) => Thing::Plain(Box::new(SampleFlatBias::new(b.iter().map(|(t, v)| (*t, v.0))))),
            WildSampler::BuiltIn(w, v, how) => Thing::Conf(build_with(*w, v, *how)),
            WildSampler::Fails(f) => Thing::Plain(Box::new(Failing { at: 1, calls: 0, fail: f.clone(), token: None })),
        }
    }
    fn sampler(&mut self) -> &mut dyn Sampler {
        match self {
            Thing::Conf(b) => b,
            Thing::Plain(b) => b,
        }
    }
}

fn wild_f() -> BoxedStrategy<F> {
    prop_oneof![
        5 => gen::value_wide(),
        2 => any::<u32>().prop_map(|b| F(f32::from_bits(b))),
        2 => proptest::sample::select(vec![f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0.0, -0.0, 1e-45, 1.0, -1.0, 0.5]).prop_map(F),
        1 => dict::floats(f32::MIN, f32::MAX),
    ]
    .boxed()
}

fn wild_d() -> BoxedStrategy<D> {
    prop_oneof![4 => wild_f().prop_map(|f| D(f.0 as f64)), 2 => any_f64(), 4 => (0.0f64..1.5).prop_map(D)].boxed()
}

/// Integers as parameters: ordinary ones, limits, and around the limits.
fn wild_u() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 0u64..8,
        3 => 0u64..300,
        1 => any_u64(),
        1 => dict::ints(0, u64::MAX),
        2 => (0u64..3).prop_map(|d| u64::MAX - d),
        1 => (0u64..5).prop_map(|d| u64::MAX / 2 - 2 + d),
        1 => (0u64..5).prop_map(|d| (1 << 32) - 2 + d),
    ]
    .boxed()
}

fn wild_values(w: Which) -> BoxedStrategy<Vec<V>> {
    documented(w)
        .iter()
        .map(|(_, t)| match t {
            Ty::U => wild_u().prop_map(V::U).boxed(),
            _ => wild_d().prop_map(V::F).boxed(),
        })
        .collect::<Vec<_>>()
        .boxed()
}

fn wild_list() -> BoxedStrategy<WildList> {
    let id = || prop_oneof![6 => 0u32..6, 2 => any::<u32>()];
    let prob = || prop_oneof![3 => Just(F(0.0)), 2 => (0.0f32..1.0).prop_map(F), 1 => wild_f()];
    let entry = (id(), wild_f(), prob());
    // Without NaN and infinities there is more left to go wrong later.
    let tame = (id(), prop_oneof![3 => gen::value_plain(), 1 => gen::value_wide()], prob());
    let entries = prop_oneof![
        4 => vec(tame.clone(), 0..8),
        1 => vec(tame, 8..60),
        3 => vec(entry.clone(), 0..8),
        1 => vec(entry, 8..60),
        1 => (prop_oneof![9 => 0u32..70, 1 => dict::sizes(0, 1100)], wild_f()).prop_map(|(n, v)| (0..n).map(|i| (i, v, F(0.0))).collect()),
    ];
    let many = prop_oneof![20_000 => Just(0u32), 3 => 60u32..5000, 2 => gen::size_vocab(), 1 => 65_000u32..300_000];
    (entries, many, proptest::bool::weighted(0.25), proptest::bool::weighted(0.25))
        .prop_map(|(entries, many, sorted, softmax)| WildList { entries, many, sorted, softmax })
        .boxed()
}

fn conf_string() -> BoxedStrategy<String> {
    let key = prop_oneof![
        4 => proptest::sample::select(vec!["p", "k", "min_keep", "m", "min", "last_n", "tau", "z", "a1", "penalty", "t", "mu", "", "e", "s", "f", "tol", "max_m", "n_vocab", "é"]).prop_map(String::from),
        1 => text(),
    ];
    let val = prop_oneof![2 => good_text(Ty::U), 2 => good_text(Ty::F), 1 => bad_text()];
    let part = prop_oneof![5 => (key, val.clone()).prop_map(|(k, v)| format!("{k}={v}")), 1 => val, 1 => text(), 1 => Just(String::new()), 1 => Just("==".to_string())];
    prop_oneof![
        6 => vec(part, 0..4).prop_map(|p| p.join(":")),
        1 => "[:= a-z0-9é.+-]{0,12}",
        1 => any::<String>(),
    ]
    .boxed()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C30";
    const RULE: &'static str = "Histories of up to 12 calls over the whole public interface with arbitrary bit patterns and limits as parameters, lists with NaN, infinities, repeated ids and untrue flags, degenerate generators, arbitrary strings; every call must return (panic, abort, overflow and standing still are violations). Non-trivial: a sampler ran on two or more entries, or a string or builder call with non-empty text.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let ws = prop_oneof![
            1 => vec((prop_oneof![0u32..6, any::<u32>()], wild_f()), 0..6).prop_map(WildSampler::Bias),
            20 => proptest::sample::select(ALL.to_vec()).prop_flat_map(|w| (wild_values(w), any::<bool>()).prop_map(move |(v, how)| WildSampler::BuiltIn(w, v, how))),
            1 => fail().prop_map(WildSampler::Fails),
        ];
        let list_op = prop_oneof![
            1 => Just(ListOp::Sort),
            2 => Just(ListOp::Softmax),
            1 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| ListOp::Flags(a, b)),
            2 => (any::<u16>(), wild_f(), wild_f()).prop_map(|(i, a, b)| ListOp::Put(i, a, b)),
            1 => (any::<u32>(), wild_f()).prop_map(|(i, a)| ListOp::Push(i, a)),
            1 => any::<u16>().prop_map(ListOp::Truncate),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| ListOp::Swap(a, b)),
        ];
        let hist = || prop_oneof![
            3 => vec(0u32..4, 0..12),
            2 => vec(prop_oneof![3 => 0u32..6, 1 => any::<u32>()], 0..40),
            1 => (0u32..3, 0usize..120).prop_map(|(t, n)| vec![t; n]),
        ];
        let name = || prop_oneof![2 => "[ab]{0,1}", 1 => text()];
        let op = prop_oneof![
            20 => (any::<u8>(), any::<bool>()).prop_map(|(i, d)| Op::Run(i, d)),
            5 => list_op.prop_map(Op::List),
            3 => wild_list().prop_map(Op::NewList),
            3 => (vec(any::<u8>(), 0..5), 1u8..4).prop_map(|(v, n)| Op::Chain(v, n)),
            2 => any::<u8>().prop_map(Op::Prepend),
            3 => (any::<u8>(), key(), prop_oneof![2 => wild_u().prop_map(V::U), 2 => wild_d().prop_map(V::F), 1 => value()]).prop_map(|(i, k, v)| Op::Set(i, k, v)),
            1 => (any::<u8>(), key()).prop_map(|(i, k)| Op::Get(i, k)),
            3 => (any::<u8>(), conf_string()).prop_map(|(i, s)| Op::Configure(i, s)),
            1 => hist().prop_map(Op::History),
            2 => (vec(wild_f(), 0..20), wild_u().prop_map(|u| u as usize)).prop_map(|(v, k)| Op::Build(v, k)),
            2 => (prop_oneof![Just(Ty::U), Just(Ty::F), Just(Ty::B), Just(Ty::S)], prop_oneof![bad_text(), good_text(Ty::F), any::<String>()]).prop_map(|(t, s)| Op::Parse(t, s)),
            1 => (any_f64(), any_u64(), prop_oneof![Just(Nums::U8F32), Just(Nums::U16F64), Just(Nums::U32F32)]).prop_map(|(d, u, n)| Op::Convert(d, u, n)),
            2 => (vec((name(), any::<u8>(), any::<u8>()), 0..5), vec((name(), conf_string()), 0..5), any::<bool>()).prop_map(|(a, b, c)| Op::Slots(a, b, c)),
            1 => (vec((0u8..14, prop_oneof![Just(Ty::U), Just(Ty::F), Just(Ty::B), Just(Ty::S)], any::<bool>()), 0..6), prop_oneof![Just(Nums::U8F32), Just(Nums::U64F64)], conf_string(), value())
                .prop_map(|(t, n, s, v)| Op::OwnTable(t, n, s, v)),
            1 => (0u8..8).prop_map(Op::Rng),
            1 => Just(Op::Show),
        ];
        (wild_list(), vec(ws, 1..5), gen::opt(hist().boxed()), 0u8..8, gen::seq(op, 1..13, 13..100, 300))
            .prop_map(|(list, samplers, hist, rng, ops)| Case { list, samplers, hist, rng, ops })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut l = c.list.build();
        let mut things: Vec<Thing> = c.samplers.iter().map(Thing::new).collect();
        let n = things.len();
        let mut res = resources(c.rng, c.hist.clone());
        let mut errors = 0;
        for op in &c.ops {
            match op {
                Op::List(o) => {
                    let n = l.len().max(1);
                    match o {
                        ListOp::Sort => errors += l.ensure_sorted().is_err() as usize,
                        ListOp::Softmax => errors += l.ensure_softmax().is_err() as usize,
                        ListOp::Flags(a, b) => {
                            l.set_sorted(*a).set_softmax(*b);
                        }
                        ListOp::Put(i, a, b) => {
                            if let Some(x) = l.get_mut(*i as usize % n) {
                                (x.logit, x.prob) = (a.0, b.0);
                            }
                        }
                        ListOp::Push(id, a) => l.push(Logit { token_id: *id, logit: a.0, prob: 0.0 }),
                        ListOp::Truncate(i) => l.truncate(*i as usize % n),
                        ListOp::Swap(a, b) => {
                            if !l.is_empty() {
                                l.swap(*a as usize % n, *b as usize % n)
                            }
                        }
                    }
                }
                Op::NewList(w) => l = w.build(),
                Op::Run(i, token) => {
                    let t = &mut things[*i as usize % n];
                    cov.nontrivial_if(l.len() > 1);
                    let s = t.sampler();
                    let ok = if *token { s.sample_token(&mut res, &mut l).is_ok() } else { s.sample(&mut res, &mut l).is_ok() };
                    let _ = s.sampled_token_id();
                    errors += !ok as usize;
                    cov.label(if ok { "sampler returned normally" } else { "sampler refused with an error" });
                }
                Op::Prepend(i) => things[*i as usize % n].sampler().sample_prepend(&mut res),
                Op::Chain(v, runs) => {
                    let mut chain = SamplerChain::new();
                    for i in v {
                        let t = Thing::new(&c.samplers[*i as usize % n]);
                        match (t, i % 3) {
                            (Thing::Conf(b), 0) => chain += b,
                            (Thing::Conf(b), 1) => chain += Box::new(b) as Box<dyn Sampler>,
                            (Thing::Conf(b), _) => chain += Arc::new(Mutex::new(b)) as Shared,
                            (Thing::Plain(b), 0) => chain += SamplerChain::new() + b,
                            (Thing::Plain(b), _) => chain = chain + b,
                        }
                    }
                    chain.sample_prepend(&mut res);
                    for _ in 0..*runs {
                        cov.nontrivial_if(l.len() > 1 && !v.is_empty());
                        errors += chain.sample_token(&mut res, &mut l).is_err() as usize;
                        let _ = chain.sampled_token_id();
                    }
                }
                Op::Set(i, k, v) => {
                    if let (Thing::Conf(b), WildSampler::BuiltIn(w, ..)) = (&mut things[*i as usize % n], &c.samplers[*i as usize % n]) {
                        let t = Target::BuiltIn(*w).table();
                        errors += b.set_option(&k.text(&t), v.option()).is_err() as usize;
                        cov.label("option set");
                    }
                }
                Op::Get(i, k) => {
                    if let (Thing::Conf(b), WildSampler::BuiltIn(w, ..)) = (&mut things[*i as usize % n], &c.samplers[*i as usize % n]) {
                        let t = Target::BuiltIn(*w).table();
                        let _ = b.get_option(&k.text(&t)).is_err();
                        let _ = (b.sampler_metadata(), b.sampler_options().len(), b.sampler_options_mut().len());
                    }
                }
                Op::Configure(i, s) => {
                    if let Thing::Conf(b) = &mut things[*i as usize % n] {
                        errors += b.configure(s).is_err() as usize;
                        cov.nontrivial_if(!s.is_empty());
                        cov.label("configured");
                    }
                }
                Op::History(h) => {
                    let _ = res.with_last_tokens_mut(&mut |t| t.clone_from(h));
                }
                Op::Build(v, k) => {
                    let vals: Vec<f32> = v.iter().map(|f| f.0).collect();
                    let _ = Logits::try_from_iter(vals.iter().copied()).is_err();
                    // An iterator that does not know its length, too.
                    let _ = Logits::try_from_iter_top_k(vals.iter().copied().filter(|_| true), *k).is_err();
                    if let Ok(x) = Logits::try_from_iter_top_k(vals.clone(), *k) {
                        l = x;
                    }
                    let _ = Logits::try_from(vals).is_err();
                }
                Op::Parse(t, s) => {
                    errors += SamplerOptionValue::<u64, f64>::parse_value(option_type(*t), s).is_err() as usize;
                    cov.nontrivial_if(!s.is_empty());
                    cov.label("parsed");
                }
                Op::Convert(d, u, nums) => {
                    let mut o = nums.own(vec![("a", Ty::U, true), ("b", Ty::F, true)]);
                    let _ = (o.set("a", &V::U(*u)).is_err(), o.set("b", &V::F(*d)).is_err(), o.get("a").is_err(), o.get("b").is_err());
                }
                Op::Slots(slots, confs, ensure) => {
                    let mut b = SamplerChainBuilder::<usize, f32>::default();
                    for (name, kind, which) in slots {
                        let w = ALL[*which as usize % ALL.len()];
                        let slot = match kind % 5 {
                            0 => SamplerSlot::new_static(move || fresh(w)),
                            1 => SamplerSlot::new_single(move || fresh(w), None::<SampleTopK>),
                            2 => SamplerSlot::new_single(move || fresh(w), Some(SampleTopK::default())),
                            3 => SamplerSlot::new_chain(move || fresh(w), vec![]),
                            _ => SamplerSlot::new_chain(move || fresh(w), vec![fresh(w)]),
                        };
                        b.push_slot(name.clone(), slot);
                    }
                    for (name, s) in confs {
                        errors += b.configure(name, s).is_err() as usize;
                    }
                    if *ensure {
                        b.iter_mut().for_each(|s| s.1.ensure_present());
                    }
                    cov.nontrivial_if(!slots.is_empty() && !confs.is_empty());
                    cov.label("builder");
                    let _ = format!("{b:?}");
                    let mut chain = b.into_chain();
                    errors += chain.sample_token(&mut res, &mut l).is_err() as usize;
                }
                Op::OwnTable(t, nums, s, v) => {
                    let table = Target::Own(*nums, t.clone()).table();
                    let mut o = nums.own(table.clone());
                    for (k, ..) in &table {
                        let _ = (o.set(k, v).is_err(), o.get(&k[..1]).is_err());
                    }
                    errors += o.configure(s).is_err() as usize;
                    let _ = o.listed();
                }
                Op::Rng(k) => res = resources(*k, c.hist.clone()),
                Op::Show => {
                    let text = format!("{l:?} {res:?}");
                    ensure!(!text.is_empty(), "no debug output");
                    let _ = format!("{:?}", SamplerError::MissingResource(text));
                }
            }
        }
        cov.label_if(errors > 0, "some call refused");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
