//! C23: missing resources are reported, samplers only read what they need.
use harness::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum POp {
    Rng(u8),
    Read,
    Push(u32),
    Pop,
    Clear,
    /// Changes in place.
    Set(u8, u32),
    Reverse,
    /// A sampler (or chain of one) uses the provider in between.
    Use(S, LIn),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Simple,
    Nil,
    Unit,
    /// A caller's type that overrides nothing.
    Defaults,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Case {
    Needs { l: LIn, samplers: Vec<S>, rng: Option<u64>, hist: Option<Hist>, chain: bool },
    Provider { kind: Kind, rng: Option<u64>, hist: Option<Vec<u32>>, ops: Vec<POp> },
}

#[derive(Debug)]
struct Defaults;
impl HasSamplerResources for Defaults {}

/// (uses the generator, uses the history) for this list.
fn needs(s: &S, n: usize) -> (bool, bool) {
    let some = n > 0;
    match s {
        S::Rep { penalty, last_n } => (false, some && *last_n > 0 && penalty.0 > 1.0),
        S::FreqPres { freq, pres, last_n } => (false, some && *last_n > 0 && (freq.0 != 0.0 || pres.0 != 0.0)),
        S::SeqRep { flat, stack, min_length, last_n, .. } => {
            (false, some && (flat.0 != 0.0 || stack.0 != 0.0) && *min_length >= 2 && last_n >= min_length)
        }
        S::Rand | S::Miro2 { .. } => (some, false),
        S::Miro1 { n_vocab, .. } => (some && *n_vocab > 0, false),
        _ => (false, false),
    }
}

fn missing<T>(r: &Result<T, SamplerError>) -> bool {
    matches!(r, Err(SamplerError::MissingResource(_)))
}

fn run_needs(l: &LIn, samplers: &[S], rng: Option<u64>, hist: &Option<Hist>, as_chain: bool, cov: &mut Cov) -> Outcome {
    let mut list = l.build();
    let ids: Vec<u32> = list.iter().map(|x| x.token_id).collect();
    let tokens = hist.as_ref().map(|h| h.expand(&ids));
    let mut res = res::Counting::new(rng, tokens.clone());
    let mut untouched = rng;
    for (i, s) in samplers.iter().enumerate() {
        let n = list.len();
        let usable = Ref::new(&list).defined();
        let (need_rng, need_hist) = needs(s, n);
        let mut own = with_sampler!(s, &ids, |x| Box::new(x) as Box<dyn Sampler>);
        if as_chain {
            let mut c = SamplerChain::new();
            c += own;
            own = Box::new(c);
        }
        let out = own.as_mut().sample(&mut res, &mut list).map(|_| ());
        let ctx = format!("sampler {i} ({s:?}) on {n} tokens, generator {}, history {}", rng.is_some(), tokens.is_some());
        ensure!(res.hist == tokens, "{ctx}: changed the history from {tokens:?} to {:?}", res.hist);
        if need_hist && tokens.is_none() {
            ensure!(missing(&out), "{ctx}: {out:?} instead of a missing resource error");
            cov.label("history missed");
            cov.nontrivial();
        } else if need_rng && rng.is_none() {
            if usable {
                ensure!(missing(&out), "{ctx}: {out:?} instead of a missing resource error");
                cov.label("generator missed");
                cov.nontrivial();
            } else {
                ensure!(out.is_err(), "{ctx}: picked from unusable weights without a generator");
            }
        } else if matches!(s, S::Miro1 { n_vocab: 0, .. }) && n > 0 {
            ensure!(out.is_err() && !missing(&out), "{ctx}: {out:?}");
        } else if usable {
            ensure!(out.is_ok(), "{ctx}: failed with {out:?}");
            cov.label_if(rng.is_none() && tokens.is_none(), "worked without resources");
            cov.nontrivial_if(n > 1 && (rng.is_none() || tokens.is_none()));
        }
        if s.random() {
            untouched = None;
        }
    }
    if let Some(seed) = untouched {
        let want = StdRng::seed_from_u64(seed).next_u64();
        let got = res::rng_fingerprint(&mut res);
        ensure!(got == Some(want), "the generator was advanced without a random selection: {samplers:?}");
        cov.label("generator untouched");
    }
    Ok(())
}

fn run_provider(kind: &Kind, rng: Option<u64>, hist: &Option<Vec<u32>>, ops: &[POp], cov: &mut Cov) -> Outcome {
    let mut simple = res::simple(rng, hist.clone());
    let (mut nil, mut unit, mut defaults) = (NilSamplerResources::new(), (), Defaults);
    let p: &mut dyn HasSamplerResources = match kind {
        Kind::Simple => &mut simple,
        Kind::Nil => &mut nil,
        Kind::Unit => &mut unit,
        Kind::Defaults => &mut defaults,
    };
    let has = *kind == Kind::Simple;
    let mut twin = if has { rng.map(StdRng::seed_from_u64) } else { None };
    let mut model = if has { hist.clone() } else { None };
    for (i, op) in ops.iter().enumerate() {
        let mut calls = 0;
        let (r, there) = match op {
            POp::Rng(k) => {
                let mut got = vec![];
                let r = p.with_rng_mut(&mut |r| {
                    calls += 1;
                    got.extend((0..=*k % 4).map(|_| r.next_u64()));
                });
                let want: Vec<u64> = twin.as_mut().map(|t| (0..=*k % 4).map(|_| t.next_u64()).collect()).unwrap_or_default();
                ensure!(got == want, "op {i}: generator gave {got:?}, not {want:?}");
                (r, twin.is_some())
            }
            POp::Read => {
                let mut got = None;
                let r = p.with_last_tokens(&mut |t| {
                    calls += 1;
                    got = Some(t.clone());
                });
                ensure!(got == model, "op {i}: history reads {got:?}, is {model:?}");
                (r, model.is_some())
            }
            POp::Push(_) | POp::Pop | POp::Clear | POp::Set(..) | POp::Reverse => {
                let edit = |t: &mut Vec<u32>| match op {
                    POp::Push(x) => t.push(*x),
                    POp::Pop => {
                        t.pop();
                    }
                    POp::Set(i, x) if !t.is_empty() => {
                        let i = *i as usize % t.len();
                        t[i] = *x
                    }
                    POp::Reverse => t.reverse(),
                    POp::Clear => t.clear(),
                    _ => (),
                };
                let mut seen = None;
                let r = p.with_last_tokens_mut(&mut |t| {
                    calls += 1;
                    seen = Some(t.clone());
                    edit(t)
                });
                ensure!(seen == model, "op {i}: history to change is {seen:?}, should be {model:?}");
                if let Some(m) = model.as_mut() {
                    edit(m);
                }
                (r, model.is_some())
            }
            POp::Use(s, l) => {
                if s.random() {
                    continue;
                }
                let mut l = l.build();
                let ids: Vec<u32> = l.iter().map(|x| x.token_id).collect();
                let _ = with_sampler!(s, &ids, |x| x.sample(p, &mut l).is_ok());
                continue;
            }
        };
        if there {
            ensure!(r.is_ok() && calls == 1, "op {i} ({op:?}): {r:?}, access given {calls} times");
        } else {
            ensure!(missing(&r) && calls == 0, "op {i} ({op:?}): {r:?} for an absent resource, access given {calls} times");
            cov.label("absent");
        }
    }
    cov.label("provider");
    cov.nontrivial_if(has && (rng.is_some() || hist.is_some()) && ops.len() > 1);
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C23";
    const RULE: &'static str = "Either up to four samplers in a row on one list with each resource present or absent, against a table of what each needs; or up to 12 requests to a resource provider against a model. Non-trivial: a sampler met an absent resource on two or more tokens, or a provider with a resource got two or more requests.";
    const QUICK: u64 = 80_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let need = (
            gen::lin_short(),
            vec(prop_oneof![2 => gen::s_any(), 2 => gen::s_penalty(), 1 => gen::s_pick(), 1 => Just(S::Miro1 { n_vocab: 0, tau: F(5.0), eta: F(0.1) })], 1..5),
            proptest::option::of(any::<u64>()),
            proptest::option::of(gen::hist()),
            any::<bool>(),
        )
            .prop_map(|(l, samplers, rng, hist, chain)| Case::Needs { l, samplers, rng, hist, chain });
        let op = prop_oneof![
            3 => any::<u8>().prop_map(POp::Rng),
            3 => Just(POp::Read),
            4 => any::<u32>().prop_map(POp::Push),
            1 => Just(POp::Pop),
            1 => Just(POp::Clear),
            2 => (any::<u8>(), any::<u32>()).prop_map(|(i, x)| POp::Set(i, x)),
            1 => Just(POp::Reverse),
            1 => (gen::s_any(), gen::lin_short()).prop_map(|(s, l)| POp::Use(s, l)),
        ];
        let kind = prop_oneof![7 => Just(Kind::Simple), 1 => Just(Kind::Nil), 1 => Just(Kind::Unit), 1 => Just(Kind::Defaults)];
        let prov = (kind, proptest::option::of(any::<u64>()), proptest::option::of(vec(any::<u32>(), 0..5)), vec(op, 1..13))
            .prop_map(|(kind, rng, hist, ops)| Case::Provider { kind, rng, hist, ops });
        prop_oneof![4 => need, 1 => prov].boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        match c {
            Case::Needs { l, samplers, rng, hist, chain } => run_needs(l, samplers, *rng, hist, *chain, cov),
            Case::Provider { kind, rng, hist, ops } => run_provider(kind, *rng, hist, ops, cov),
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
