//! C34: an option left alone has its documented default.
use std::{collections::HashMap, sync::OnceLock};

use harness::{custom::err_text, opts::*, prelude::*};

/// How the sampler comes about.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Route {
    /// `default()` and `set_option`.
    SetOption,
    /// `default()` and one configuration string.
    Configure,
    /// A single slot, empty at first, configured by a string.
    Single,
    /// A chain slot, configured by a string.
    Chain,
    /// A slot filled with `ensure_present`, then configured.
    Ensured,
    /// `default()` and builder methods.
    Methods,
    /// Mirostat's constructors, which leave out some options.
    Constructor,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    w: Which,
    route: Route,
    /// Option (by number, modulo) and value, in the order given.
    given: Vec<(u8, u64, F)>,
    lists: Vec<(LIn, Hist)>,
    seed: u64,
}

type Defaults = HashMap<(String, String), String>;

/// What the documentation of the samplers says, as far as it can be read.
fn written() -> &'static Defaults {
    static D: OnceLock<Defaults> = OnceLock::new();
    D.get_or_init(|| {
        let mut out = HashMap::new();
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    read_docs(&std::fs::read_to_string(&p).unwrap_or_default(), &mut out);
                }
            }
        }
        out
    })
}

fn read_docs(text: &str, out: &mut Defaults) {
    let mut doc: Vec<&str> = vec![];
    for line in text.lines().map(str::trim) {
        if let Some(d) = line.strip_prefix("///") {
            doc.push(d.trim());
        } else if let Some(rest) = line.strip_prefix("pub struct ") {
            let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let mut key = None;
            for d in doc.drain(..) {
                if let Some(k) = d.strip_prefix("- `").and_then(|d| d.split_once("`:")) {
                    key = Some(k.0.to_string());
                }
                if d.is_empty() {
                    key = None;
                }
                let v = d.split_once("(default: `").and_then(|d| d.1.split_once('`'));
                if let (Some(k), Some((v, _))) = (&key, v) {
                    out.insert((name.clone(), k.clone()), v.trim().to_string());
                }
            }
        } else if !line.starts_with("#[") {
            doc.clear();
        }
    }
}

/// The defaults in the order of `documented`, as the documentation states them
/// at the time of writing.
fn stated(w: Which) -> Vec<V> {
    let (f, u) = (|v: f32| V::F(D(v as f64)), V::U);
    match w {
        Which::FlatBias | Which::Greedy | Which::Rand => vec![],
        Which::Rep => vec![f(1.1), u(64)],
        Which::FreqPres => vec![f(0.0), f(0.0), u(64)],
        Which::SeqRep => vec![f(0.0), f(0.0), u(4), u(0), u(1), u(64)],
        Which::TopK => vec![u(40), u(1)],
        Which::TailFree | Which::Typical => vec![f(1.0), u(1)],
        Which::TopP => vec![f(0.9), u(1)],
        Which::MinP => vec![f(0.05), u(1)],
        Which::TopA => vec![f(0.2), f(2.0), u(1)],
        Which::Temp => vec![f(1.0)],
        Which::Miro1 => vec![f(5.0), f(0.1), f(10.0), u(100), u(0)],
        Which::Miro2 => vec![f(5.0), f(0.1), f(10.0)],
    }
}

fn type_name(w: Which) -> &'static str {
    match w {
        Which::FlatBias => "SampleFlatBias",
        Which::Rep => "SampleRepetition",
        Which::FreqPres => "SampleFreqPresence",
        Which::SeqRep => "SampleSeqRepetition",
        Which::TopK => "SampleTopK",
        Which::TailFree => "SampleTailFree",
        Which::Typical => "SampleLocallyTypical",
        Which::TopP => "SampleTopP",
        Which::MinP => "SampleMinP",
        Which::TopA => "SampleTopA",
        Which::Temp => "SampleTemperature",
        Which::Greedy => "SampleGreedy",
        Which::Rand => "SampleRandDistrib",
        Which::Miro1 => "SampleMirostat1",
        Which::Miro2 => "SampleMirostat2",
    }
}

fn defaults(w: Which) -> Vec<V> {
    let mut out = stated(w);
    for (i, (key, ty)) in documented(w).iter().enumerate() {
        let names = [*key, if *key == "penalty" { "repetition_penalty" } else { key }];
        let text = names.iter().find_map(|n| written().get(&(type_name(w).to_string(), n.to_string())));
        let read = text.and_then(|t| match (ty, t.parse::<f32>(), t.as_str()) {
            (Ty::U, ..) => t.parse::<u64>().ok().map(V::U),
            (_, Ok(v), _) => Some(V::F(D(v as f64))),
            // tau comes first in the table.
            (_, _, "tau * 2") => match &out[0] {
                V::F(tau) => Some(V::F(D(tau.0 * 2.0))),
                _ => None,
            },
            _ => None,
        });
        if let Some(v) = read {
            out[i] = v;
        }
    }
    out
}

/// The options given, in order; those left out of a constructor's reach if it is one.
fn given(c: &Case) -> Vec<(usize, V)> {
    let doc = documented(c.w);
    if doc.is_empty() {
        return vec![];
    }
    c.given
        .iter()
        .map(|(i, u, f)| {
            let i = *i as usize % doc.len();
            (i, if doc[i].1 == Ty::U { V::U(*u) } else { V::F(D(f.0 as f64)) })
        })
        .collect()
}

/// Built by `default()` and the builder methods of the given options.
fn by_methods(w: Which, given: &[(usize, V)]) -> Buildable {
    let f = |v: &V| match v {
        V::F(d) => d.0 as f32,
        other => panic!("{other:?}"),
    };
    let u = |v: &V| match v {
        V::U(u) => *u as usize,
        other => panic!("{other:?}"),
    };
    macro_rules! built {
        ($t:ty: $($conv:ident $method:ident),*) => {{
            let mut s = <$t>::default();
            for (i, v) in given {
                let mut n = 0..;
                $(
                    if n.next() == Some(*i) {
                        s = s.$method($conv(v));
                    }
                )*
            }
            Box::new(s)
        }};
    }
    // Methods in the order of `documented`.
    match w {
        Which::FlatBias | Which::Greedy | Which::Rand => fresh(w),
        Which::Rep => built!(SampleRepetition: f penalty, u last_n),
        Which::FreqPres => built!(SampleFreqPresence: f frequency, f presence, u last_n),
        Which::SeqRep => built!(SampleSeqRepetition: f flat_penalty, f stacking_penalty, u min_length, u tolerance, u max_merge, u last_n),
        Which::TopK => built!(SampleTopK: u k, u min_keep),
        Which::TailFree => built!(SampleTailFree: f z, u min_keep),
        Which::Typical => built!(SampleLocallyTypical: f p, u min_keep),
        Which::TopP => built!(SampleTopP: f p, u min_keep),
        Which::MinP => built!(SampleMinP: f p, u min_keep),
        Which::TopA => built!(SampleTopA: f a1, f a2, u min_keep),
        Which::Temp => built!(SampleTemperature: f temperature),
        Which::Miro1 => built!(SampleMirostat1: f tau, f eta, f mu, u m, u n_vocab),
        Which::Miro2 => built!(SampleMirostat2: f tau, f eta, f mu),
    }
}

fn build(c: &Case, given: &[(usize, V)], full: &[V]) -> Result<Box<dyn Sampler>, String> {
    let doc = documented(c.w);
    let text = || {
        let part = |(i, v): &(usize, V)| match v {
            V::U(u) => format!("{}={u}", doc[*i].0),
            V::F(d) => format!("{}={:?}", doc[*i].0, d.0),
            other => panic!("{other:?}"),
        };
        given.iter().map(part).collect::<Vec<_>>().join(":")
    };
    let reads = |s: &Buildable| -> Result<(), String> {
        for ((k, _), want) in doc.iter().zip(full) {
            let got = s.get_option(k).map(V::from_option).map_err(|e| e.to_string())?;
            if got != *want {
                return Err(format!("option {k} of {:?} ({:?}) reads {got:?}, should be {want:?}", c.w, c.route));
            }
        }
        Ok(())
    };
    let w = c.w;
    let mut slot: SamplerSlot<usize, f32> = match c.route {
        Route::SetOption => {
            let mut s = fresh(w);
            for (i, v) in given {
                s.set_option(doc[*i].0, v.option()).map_err(|e| e.to_string())?;
            }
            reads(&s)?;
            return Ok(Box::new(s));
        }
        Route::Configure => {
            let mut s = fresh(w);
            s.configure(&text()).map_err(|e| e.to_string())?;
            reads(&s)?;
            return Ok(Box::new(s));
        }
        Route::Methods => {
            let s = by_methods(w, given);
            reads(&s)?;
            return Ok(Box::new(s));
        }
        Route::Constructor => {
            let f = |i: usize| match &full[i] {
                V::F(d) => d.0 as f32,
                other => panic!("{other:?}"),
            };
            let u = |i: usize| match &full[i] {
                V::U(u) => *u as usize,
                other => panic!("{other:?}"),
            };
            let s: Buildable = match w {
                Which::Miro1 => Box::new(SampleMirostat1::new(u(4), f(0), f(1))),
                Which::Miro2 => Box::new(SampleMirostat2::new(f(0), f(1))),
                _ => build_with(w, full, false),
            };
            reads(&s)?;
            return Ok(Box::new(s));
        }
        Route::Single | Route::Ensured => SamplerSlot::new_single(move || fresh(w), None::<SampleGreedy>),
        Route::Chain => SamplerSlot::new_chain(move || fresh(w), []),
    };
    if c.route == Route::Ensured {
        slot.ensure_present();
    }
    let mut b = SamplerChainBuilder::from([("it".to_string(), slot)]);
    b.configure("it", text()).map_err(|e| e.to_string())?;
    match b.iter_mut().next() {
        Some((_, SamplerSlot::Single { sampler: Some(s), .. })) => reads(s)?,
        Some((_, SamplerSlot::Chain { samplers, .. })) if samplers.len() == 1 => reads(&samplers[0])?,
        _ => return Err(format!("the slot is not filled with one sampler ({:?}, {:?})", c.w, c.route)),
    }
    Ok(Box::new(b.into_chain()))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C34";
    const RULE: &'static str = "A sampler of any kind made by default() or a constructor, in a slot or not, with any part of its options given (by name, configuration string or builder method, any order and repetition, mu before or after tau), against one constructed with all options written out, documented defaults in the place of the others: the options read alike and up to 4 lists, with histories beyond the default windows, come out alike by bits. Non-trivial: an option was left alone and the sampler changed a list of two or more or picked a token.";
    const QUICK: u64 = 100_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let f = prop_oneof![6 => 0.0f32..2.0, 2 => -2.0f32..8.0].prop_map(F);
        let g = vec((any::<u8>(), prop_oneof![8 => 0u64..12, 1 => 0u64..300], f), 0..5);
        let route = prop_oneof![
            Just(Route::SetOption), Just(Route::Configure), Just(Route::Single),
            Just(Route::Chain), Just(Route::Ensured), Just(Route::Constructor), Just(Route::Methods)
        ];
        let list = prop_oneof![
            300 => gen::lin_short(),
            1 => (300u32..5000, any::<u64>(), gen::shape(true), gen::ids())
                .prop_map(|(n, seed, shape, ids)| LIn { vals: Vals::Expr { n, seed, shape }, ids, prep: Prep::Raw, stale: 0, again: 0 }),
            100 => (20u32..300, any::<u64>(), gen::shape(true), gen::ids())
                .prop_map(|(n, seed, shape, ids)| LIn { vals: Vals::Expr { n, seed, shape }, ids, prep: Prep::Raw, stale: 0, again: 0 }),
        ];
        // Tokens that last occur just inside or outside the default windows.
        let edge = (vec(0u16..8, 1..4), 60u16..68).prop_map(|(t, n)| {
            Hist::Toks(t.iter().copied().chain(std::iter::repeat(9).take(n as usize - t.len())).collect())
        });
        let h = prop_oneof![3 => gen::hist(), 1 => edge];
        (which(), route, g, gen::seq((list, h), 1..5, 5..100, 500), any::<u64>())
            .prop_map(|(w, route, given, lists, seed)| Case { w, route, given, lists, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut full = defaults(c.w);
        let mut given = given(c);
        let mu = documented(c.w).iter().position(|d| d.0 == "mu");
        if c.route == Route::Constructor && mu.is_some() {
            // tau, eta and the vocabulary are given to the constructor.
            given.retain(|(i, _)| [0, 1, 4].contains(i));
        }
        for (i, v) in &given {
            full[*i] = v.clone();
            if let (V::F(tau), Some(mu), "tau") = (v, mu, documented(c.w)[*i].0) {
                full[mu] = V::F(D((tau.0 as f32 * 2.0) as f64));
            }
        }
        let left = (0..full.len()).any(|i| given.iter().all(|g| g.0 != i));
        let mut it = build(c, &given, &full)?;
        let mut twin = build_with(c.w, &full, false);
        let mut res = [res::Counting::new(Some(c.seed), None), res::Counting::new(Some(c.seed), None)];
        let what = format!("{:?} ({:?}) with {given:?}", c.w, c.route);
        ensure!(it.sampled_token_id().is_none(), "{what}: reports a token at first");
        for (step, (spec, hist)) in c.lists.iter().enumerate() {
            let base = spec.build();
            let ids: Vec<u32> = base.iter().map(|x| x.token_id).collect();
            let h = hist.expand(&ids);
            let (mut a, mut b) = (base.clone(), base.clone());
            let [ra, rb] = &mut res;
            (ra.hist, rb.hist) = (Some(h.clone()), Some(h));
            let ta = it.sample_token(ra, &mut a).map_err(|e| err_text(&e));
            let tb = twin.sample_token(rb, &mut b).map_err(|e| err_text(&e));
            check_identical(&a, &b).map_err(|e| format!("{what}, list {step}: against {full:?} written out: {e}"))?;
            ensure!(ta == tb, "{what}, list {step}: {ta:?}, with {full:?} written out {tb:?}");
            let acts = check_identical(&a, &base).is_err() || matches!(ta, Ok(Some(_)));
            cov.nontrivial_if(base.len() > 1 && acts && (left || full.is_empty()));
            cov.label_if(acts && left, "defaults at work");
            cov.label_if(acts && left && given.is_empty(), "nothing given");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
