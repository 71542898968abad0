//! C38: a failed sampling call says what failed and leaves nothing half done.
use std::cell::Cell;

use harness::{custom::*, prelude::*};
use rand::{rngs::StdRng, RngCore, SeedableRng};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Fault {
    /// The nth request for the resource (generator, history) fails like this.
    At(bool, u8, Fail),
    NoRng,
    NoHist,
    /// Neither.
    Nothing,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Step {
    l: LIn,
    fault: Option<Fault>,
    /// Put NaN or +inf (by the flag) in this place.
    spoil: Option<(u16, bool)>,
    direct: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    samplers: Vec<S>,
    /// mu of mirostat to start from.
    mu: Option<F>,
    steps: Vec<Step>,
    hist: Hist,
    seed: u64,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

/// A caller's own resources, which may refuse.
#[derive(Debug, Clone)]
struct Faulty {
    rng: StdRng,
    hist: Vec<u32>,
    fault: Option<Fault>,
    rng_asked: u8,
    hist_asked: Cell<u8>,
    refused: Cell<bool>,
}

impl Faulty {
    fn refusal(&self, rng: bool, asked: u8) -> Option<SamplerError> {
        let e = match &self.fault {
            Some(Fault::At(r, at, f)) if *r == rng && *at == asked => f.error(),
            Some(Fault::NoRng | Fault::Nothing) if rng => SamplerError::MissingResource("rng".into()),
            Some(Fault::NoHist | Fault::Nothing) if !rng => SamplerError::MissingResource("last_tokens".into()),
            _ => return None,
        };
        self.refused.set(true);
        Some(e)
    }
}

impl HasSamplerResources for Faulty {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        let n = self.rng_asked;
        self.rng_asked = n.saturating_add(1);
        self.refusal(true, n).map_or(Ok(()), Err)?;
        fun(&mut self.rng);
        Ok(())
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        let n = self.hist_asked.get();
        self.hist_asked.set(n.saturating_add(1));
        self.refusal(false, n).map_or(Ok(()), Err)?;
        fun(&self.hist);
        Ok(())
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<TID>)) -> Result<(), SamplerError> {
        fun(&mut self.hist);
        Ok(())
    }
}

/// What the failing call may say.
fn expected(f: &Fault, rng: bool) -> Vec<String> {
    match f {
        Fault::At(_, _, f) => vec![err_text(&f.error())],
        _ => vec![err_text(&SamplerError::MissingResource(if rng { "rng" } else { "last_tokens" }.into()))],
    }
}

/// Values of all options, by bits.
fn options<T: ConfigurableSampler<usize, f32>>(s: &T) -> Vec<(&'static str, String)> {
    s.sampler_options().iter().map(|(md, v)| (md.key, format!("{v:?}"))).collect()
}

fn bits(l: &Logits) -> (Vec<(u32, u32, u32)>, bool, bool) {
    (l.iter().map(|x| (x.token_id, x.logit.to_bits(), x.prob.to_bits())).collect(), l.get_sorted(), l.get_softmax())
}

fn drive<T: Sampler + ConfigurableSampler<usize, f32> + Clone + 'static>(mut s: T, spec: &S, c: &Case, cov: &mut Cov) -> Outcome {
    if let Some(mu) = c.mu {
        let _ = s.set_option("mu", SamplerOptionValue::Float(mu.0 as f64));
    }
    let picks = spec.picks();
    let reads_hist = matches!(spec, S::Rep { .. } | S::FreqPres { .. } | S::SeqRep { .. });
    let mut rng = StdRng::seed_from_u64(c.seed);
    for (i, st) in gen::cycled(&c.steps, c.again, |s| 20 + spec.weight() + s.l.vals.len()).enumerate() {
        let mut l = st.l.build();
        let n = l.len();
        if let (Some((at, nan)), true) = (st.spoil, n > 0) {
            l[at as usize % n].logit = if nan { f32::NAN } else { f32::INFINITY };
            l.set_sorted(false);
            l.set_softmax(false);
        }
        let ids: Vec<u32> = l.iter().map(|x| x.token_id).collect();
        let hist = c.hist.expand(&ids);
        let mut res = Faulty { rng: rng.clone(), hist: hist.clone(), fault: st.fault.clone(), rng_asked: 0, hist_asked: Cell::new(0), refused: Cell::new(false) };
        let before = l.clone();
        let unused = s.clone();
        let opts = options(&s);
        let got = if st.direct { s.sample_token(&mut res, &mut l).map(drop) } else { s.sample(&mut res, &mut l).map(drop) };
        let refused = res.refused.get();
        let Err(e) = got else {
            ensure!(!refused, "step {i}: {spec:?}: succeeds although it was refused what it asked for ({:?})", st.fault);
            rng = res.rng;
            continue;
        };
        let e = err_text(&e);
        cov.label_if(refused, "refused");
        cov.label_if(!refused, "failed on the list");
        if refused {
            let want = expected(st.fault.as_ref().unwrap_or(&Fault::Nothing), !reads_hist);
            ensure!(want.contains(&e), "step {i}: {spec:?}: the resources refuse with {want:?}, the call fails with {e}");
        } else {
            ensure!(!e.contains("MissingResource") && !e.contains("Interrupted"), "step {i}: {spec:?}: nothing was refused, but the call fails with {e}");
        }
        ensure!(s.sampled_token_id().is_none(), "step {i}: {spec:?}: failed with {e} but reports {:?}", s.sampled_token_id());
        ensure!(options(&s) == opts, "step {i}: {spec:?}: failed with {e}, options {:?} became {:?}", opts, options(&s));
        ensure!(res.hist == hist, "step {i}: {spec:?}: failed with {e} and changed the history");
        ensure!(res.rng == rng || res.rng_asked > 1, "step {i}: {spec:?}: failed with {e} and used the generator");
        check_subset(&before, &l).map_err(|m| format!("step {i}: {spec:?}: failed with {e}: {m}"))?;
        if !spec.is_filter() && !matches!(spec, S::Miro1 { .. } | S::Miro2 { .. }) {
            ensure!(l.len() == n, "step {i}: {spec:?}: failed with {e}, {} of {n} tokens left", l.len());
        }
        if reads_hist {
            ensure!(bits(&l) == bits(&before), "step {i}: {spec:?}: failed with {e}, yet the list is {l:?} and not {before:?}");
        }
        if st.spoil.is_none() {
            check_flags(&l).map_err(|m| format!("step {i}: {spec:?}: failed with {e}: {m}"))?;
        }
        if !refused || st.spoil.is_some() {
            continue;
        }
        // Once it gets what it asks for, it does what it would have done.
        res.fault = None;
        let mut other = Faulty { rng: rng.clone(), hist, fault: None, rng_asked: 0, hist_asked: Cell::new(0), refused: Cell::new(false) };
        let (mut fresh, mut want) = (unused, before.clone());
        let w = fresh.sample_token(&mut other, &mut want).map_err(|e| err_text(&e));
        // Mirostat 1 estimates from the list it finds, which has become shorter.
        let again = matches!(spec, S::Miro1 { .. });
        let mut l = if again { before } else { l };
        let g = s.sample_token(&mut res, &mut l).map_err(|e| err_text(&e));
        ensure!(g == w, "step {i}: {spec:?}: failed with {e}, then at the second try {g:?} instead of {w:?}");
        let near = |a: f32, b: f32| a.to_bits() == b.to_bits() || close(a, b as f64, 2e-5, 1e-30);
        let equal = l.len() == want.len()
            && l.iter().zip(want.iter()).all(|(a, b)| a.token_id == b.token_id && a.logit.to_bits() == b.logit.to_bits())
            && (l.get_sorted(), l.get_softmax()) == (want.get_sorted(), want.get_softmax())
            && (!l.get_softmax() || l.iter().zip(want.iter()).all(|(a, b)| near(a.prob, b.prob)));
        ensure!(equal, "step {i}: {spec:?}: failed with {e}, the second try gives {l:?} instead of {want:?}");
        ensure!(res.rng == other.rng, "step {i}: {spec:?}: the second try uses the generator differently");
        let (a, b) = (options(&s), options(&fresh));
        ensure!(
            a.iter().zip(&b).all(|(a, b)| a == b || a.0 == "mu"),
            "step {i}: {spec:?}: failed with {e}, after the second try the options are {a:?} instead of {b:?}"
        );
        let mu = |s: &T| match s.get_option("mu") {
            Ok(SamplerOptionValue::Float(v)) => v,
            _ => 0.0,
        };
        ensure!(
            (mu(&s) - mu(&fresh)).abs() <= 1e-3 + 1e-4 * mu(&fresh).abs() || mu(&s).to_bits() == mu(&fresh).to_bits(),
            "step {i}: {spec:?}: failed with {e}, after the second try mu is {} instead of {}", mu(&s), mu(&fresh)
        );
        rng = res.rng;
        cov.nontrivial_if(n > 1 && (picks && w != Ok(None) || reads_hist));
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C38";
    const RULE: &'static str = "Every built-in sampler on 1 to 5 lists, with the caller's own resources refusing the generator or the history (missing, or with any error, interruptions included, at the first or a later request of the call) and with lists made unusable by NaN or +inf; after a refusal the call is repeated with the resource at hand and compared with an untouched sampler and list. Non-trivial: a refused call on two or more tokens, repeated with success.";
    const QUICK: u64 = 40_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![
            4 => (any::<bool>(), prop_oneof![6 => Just(0u8), 1 => 1u8..3], fail()).prop_map(|(r, n, f)| Fault::At(r, n, f)),
            2 => Just(Fault::NoRng),
            2 => Just(Fault::NoHist),
            2 => Just(Fault::Nothing),
        ];
        let step = (gen::lin(1), gen::opt(fault.boxed()), prop_oneof![6 => Just(None), 1 => (any::<u16>(), any::<bool>()).prop_map(Some)], any::<bool>())
            .prop_map(|(l, fault, spoil, direct)| Step { l, fault, spoil, direct });
        let samplers = vec(
            prop_oneof![
                4 => gen::s_pick(),
                3 => gen::s_penalty(),
                1 => gen::s_filter(gen::count()),
                1 => prop_oneof![gen::s_bias(true), gen::temp_signed().prop_map(S::Temp)],
            ],
            1..3,
        );
        let mu = gen::opt(prop_oneof![3 => (0.0f32..12.0).prop_map(F), 1 => (-5.0f32..0.0).prop_map(F)].boxed());
        (samplers, mu, gen::seq(step, 1..6, 6..60, 300), gen::hist(), any::<u64>(), gen::again())
            .prop_map(|(samplers, mu, steps, hist, seed, again)| Case { samplers, mu, steps, hist, seed, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        for spec in &c.samplers {
            with_sampler!(spec, &[0, 1, 2, 3, 4], |s| drive(s, spec, c, cov)?);
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
