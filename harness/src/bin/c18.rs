//! C18: mirostat 2 cuts at surprise mu and steers mu towards tau.
use harness::{miro::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    tau: F,
    eta: F,
    default: bool,
    steps: Vec<Step>,
    seed: u64,
    freq: u16,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C18";
    const RULE: &'static str = "Up to eight steps (lists, new tau / mu / eta, mu put exactly at or next to a token's surprise, missing generator) with one sampler; mu is followed by an f64 model. Some runs also draw repeatedly at a fixed mu and compare frequencies. Non-trivial: at least one list cut by mu to two or more tokens, or two picks in one history.";
    const QUICK: u64 = 30_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![10 => (0.1f32..9.0).prop_map(F), 2 => (-1.0f32..0.2).prop_map(F), 1 => dict::floats(-1.0, 9.0)],
            prop_oneof![8 => (0.0f32..1.5).prop_map(F), 2 => Just(F(0.1)), 1 => dict::floats(0.0, 1.5)],
            proptest::bool::weighted(0.1),
            steps(2),
            any::<u64>(),
            prop_oneof![40 => Just(0u16), 1 => 500u16..3000],
            gen::again(),
        )
            .prop_map(|(tau, eta, default, steps, seed, freq, again)| Case { tau, eta, default, steps, seed, freq, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (mut tau, mut eta) = if c.default { (5.0, 0.1) } else { (c.tau.0, c.eta.0) };
        let mut s = if c.default {
            SampleMirostat2::default()
        } else if c.seed % 2 == 0 {
            SampleMirostat2::new(tau, eta)
        } else {
            SampleMirostat2::default().eta(eta).tau(tau)
        };
        let mut res = res::simple(Some(c.seed), None);
        let mut picks = 0;
        let m0 = get(&s, "mu")?;
        ensure!(close(m0 as f32, 2.0 * tau as f64, 1e-6, 0.0), "mu starts at {m0}, tau is {tau}");
        let size = |s: &Step| match s {
            Step::Run(l) | Step::NoRng(l) => l.vals.len(),
            _ => 1,
        };
        for (i, step) in gen::cycled(&c.steps, c.again, size).enumerate() {
            let ctx = |e: String| format!("step {i}: {e}");
            let mu = get(&s, "mu")?;
            match step {
                Step::SetTau(t) => {
                    tau = t.0;
                    set(&mut s, "tau", tau)?;
                    let m = get(&s, "mu")?;
                    ensure!(close(m as f32, 2.0 * tau as f64, 1e-6, 0.0), "step {i}: tau set to {tau}, mu is {m}");
                }
                Step::SetMu(m) => {
                    set(&mut s, "mu", m.0)?;
                    ensure!(get(&s, "mu")? == m.0 as f64, "step {i}: mu set to {m:?}");
                }
                Step::SetEta(e) => {
                    eta = e.0;
                    set(&mut s, "eta", eta)?;
                    ensure!(get(&s, "mu")? == mu, "step {i}: setting eta changed mu");
                }
                Step::MuAt(at, u) => {
                    let next = c.steps.iter().cycle().skip(i % c.steps.len() + 1).take(c.steps.len()).find_map(|s| match s {
                        Step::Run(l) => Some(l),
                        _ => None,
                    });
                    if let Some(spec) = next {
                        let r = Ref::for_spec(&spec.build(), spec);
                        if r.n() > 0 && r.defined() {
                            let p = r.p[*at as usize % r.n()];
                            let m = ulps(if p < 1e-37 { 130.0 } else { -p.log2() as f32 }, *u as i32);
                            set(&mut s, "mu", m)?;
                            cov.label_if(r.exact && *u == 0, "mu exactly at a surprise");
                        }
                    }
                }
                Step::NoRng(spec) => {
                    let mut l = spec.build();
                    let (empty, def) = (l.is_empty(), Ref::new(&l).defined());
                    let r = s.sample(&mut (), &mut l).map(|_| ());
                    ensure!(r.is_ok() == empty, "step {i}: without generator: {r:?}");
                    ensure!(s.sampled_token_id().is_none(), "step {i}: reports a token without having picked one");
                    if def {
                        ensure!(get(&s, "mu")? == mu, "step {i}: mu changed without a pick");
                    }
                }
                Step::Run(spec) => {
                    let mut l = spec.build();
                    let list = l.clone();
                    let r = Ref::for_spec(&l, spec);
                    let n = r.n();
                    let out = s.sample(&mut res, &mut l).map(|_| ()).map_err(|e| e.to_string());
                    let after = get(&s, "mu")?;
                    if !r.defined() {
                        check_subset(&r.before, &l).map_err(ctx)?;
                        // No usable distribution: start over with a sane mu.
                        set(&mut s, "tau", tau)?;
                        continue;
                    }
                    out.map_err(ctx)?;
                    let token = s.sampled_token_id();
                    if n == 0 {
                        ensure!(token.is_none() && after == mu, "step {i}: empty list: token {token:?}, mu {mu} became {after}");
                        continue;
                    }
                    check_top(&r, &l).map_err(ctx)?;
                    check_flags(&l).map_err(ctx)?;
                    let k = l.len();
                    let may = (0..n).find(|j| surprise(&r, *j).1 > mu).unwrap_or(n).max(1);
                    let must = (0..n).find(|j| surprise(&r, *j).0 > mu).unwrap_or(n).max(1);
                    ensure!((may..=must).contains(&k), "step {i}: mu={mu}: {k} of {n} kept, {may} to {must} expected");
                    check_pick(&r, &l, token, (mu, after), tau as f64, eta as f64).map_err(ctx)?;
                    picks += 1;
                    cov.nontrivial_if((k > 1 && k < n) || picks > 1);
                    cov.label_if(k == n && n > 1, "all kept");
                    cov.label_if(k > 1 && k < n && may == must, "cut at a definite place");
                    cov.label_if(k == 1 && n > 1, "cut to one");
                    if c.freq > 0 && n < 300 && i < c.steps.len() {
                        cov.label("frequencies compared");
                        let mut f = s.clone();
                        set(&mut f, "mu", mu as f32)?;
                        check_frequencies(&f, &list, &r, k, c.seed ^ i as u64, c.freq as usize).map_err(ctx)?;
                    }
                }
            }
        }
        cov.label_if(picks > 2, "three picks or more");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
