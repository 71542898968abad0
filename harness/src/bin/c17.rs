//! C17: random selection follows the probabilities, never picks a zero one.
use harness::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Gen {
    Std(u64),
    /// A generator that only emits the extremes of its range.
    Extreme(Vec<u64>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    l: LIn,
    draws: u32,
    gen: Gen,
    /// Draw from a fresh list each time (else the list is reused as it is).
    fresh: bool,
    /// Lists like this one the same sampler draws from before (and in between).
    decoys: u8,
}

/// Lists of the same length and the same best tokens with the rest of the
/// weight in other places: (kind) merged, split, moved, reversed.
fn decoys(list: &Logits, kinds: u8) -> Vec<Logits> {
    let mut v: Vec<Logit> = list.to_vec();
    v.sort_by(|a, b| b.logit.total_cmp(&a.logit));
    let n = v.len();
    let mut out = vec![];
    let mut add = |f: &dyn Fn(&mut Vec<Logit>)| {
        let mut w = v.clone();
        f(&mut w);
        let mut l = Logits::default();
        l.extend(w);
        out.push(l);
    };
    if n > 2 && kinds & 1 != 0 {
        add(&|w| {
            let (a, b) = (w[n - 2].logit, w[n - 1].logit);
            w[n - 2].logit = ((a - b).exp() + 1.0).ln() + b;
            w[n - 1].logit = f32::NEG_INFINITY;
        });
    }
    if n > 2 && kinds & 2 != 0 {
        add(&|w| {
            let half = w[1].logit - std::f32::consts::LN_2;
            (w[1].logit, w[n - 1].logit) = (half, half);
        });
    }
    if n > 2 && kinds & 4 != 0 {
        add(&|w| w[1..].iter_mut().for_each(|x| x.logit = f32::NEG_INFINITY));
    }
    if n > 1 && kinds & 8 != 0 {
        add(&|w| {
            let logits: Vec<f32> = w.iter().map(|x| x.logit).collect();
            w.iter_mut().zip(logits.iter().rev()).for_each(|(x, l)| x.logit = *l);
        });
    }
    out
}

/// One token takes nearly everything, the others share a rare rest.
fn rare() -> BoxedStrategy<LIn> {
    (1usize..120, 4f32..12.0, gen::ids(), gen::prep(), 0u8..6)
        .prop_map(|(n, drop, ids, prep, stale)| {
            let mut vals = vec![F(0.0)];
            vals.extend((0..n).map(|i| F(-drop - (n as f32).ln() - i as f32 / 4096.0)));
            LIn { vals: Vals::Explicit(vals), ids, prep, stale, again: 0 }
        })
        .boxed()
}

/// A large vocabulary of nearly equal tokens.
fn flat() -> BoxedStrategy<LIn> {
    (36_000u32..44_000, any::<u64>(), 0f32..0.3, gen::ids(), gen::prep())
        .prop_map(|(n, seed, dev, ids, prep)| LIn { vals: Vals::Expr { n, seed, shape: Shape::Uniform(F(dev)) }, ids, prep, stale: 0, again: 0 })
        .boxed()
}

/// More nearly equal tokens than a 16 bit number counts.
fn wide() -> BoxedStrategy<LIn> {
    (prop_oneof![3 => 60_000u32..140_000, 1 => 140_000u32..600_000], any::<u64>(), 0f32..1.0, gen::ids(), gen::prep())
        .prop_map(|(n, seed, dev, ids, prep)| LIn { vals: Vals::Expr { n, seed, shape: Shape::Uniform(F(dev)) }, ids, prep, stale: 0, again: 0 })
        .boxed()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C17";
    const RULE: &'static str = "Lists of every shape; 1 to 60000 draws from a seeded generator, or draws from a generator emitting range extremes (support only). 1 in 30 lists leaves a rare rest (e^-4 to e^-12) to all but one token and gets a million draws; a few have about 40000 nearly equal tokens and get 50000 draws, or up to 600000 such tokens and 600 draws. Every count, and that of every group of most probable tokens, must lie within an exponential (Bernstein) bound of its expectation that a correct sampler leaves with probability below 1e-12 per token, and the chi-square statistic of 1000 tokens or more within one of 1e-17. Non-trivial: at least 500 draws from a list with two tokens of probability above 0.1%.";
    const QUICK: u64 = 1_600;
    type Case = Case;

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = if t == Tier::Thorough { 400_000u32 } else { 60_000 };
        let draws = prop_oneof![
            3 => Just(1u32),
            3 => 1u32..60,
            6 => 1000u32..4000,
            2 => 15_000u32..20_000,
            1 => Just(big),
        ];
        let g = prop_oneof![
            6 => any::<u64>().prop_map(Gen::Std),
            1 => vec(proptest::sample::select(vec![0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX << 32, u32::MAX as u64, 0x7fff_ffff_ffff_ffff]), 2..6)
                .prop_map(|mut v| { v.push(0x1234_5678_9abc_def0); Gen::Extreme(v) }),
        ];
        let l = prop_oneof![
            6 => gen::lin_short(),
            2 => gen::lin(0),
            2 => (gen::dyadic(), gen::ids(), gen::prep(), 0u8..6).prop_map(|(vals, ids, prep, stale)| LIn { vals, ids, prep, stale, again: 0 }),
        ];
        let usual = (l, draws, g, any::<bool>(), prop_oneof![Just(0u8), 1u8..16]).prop_map(|(l, draws, gen, fresh, decoys)| Case { l, draws, gen, fresh, decoys });
        let many = if t == Tier::Thorough { 4_000_000u32 } else { 1_000_000 };
        let rare = (rare(), any::<u64>()).prop_map(move |(l, s)| Case { l, draws: many, gen: Gen::Std(s), fresh: false, decoys: 0 });
        let flat = (flat(), any::<u64>()).prop_map(move |(l, s)| Case { l, draws: 50_000, gen: Gen::Std(s), fresh: false, decoys: 0 });
        let wide = (wide(), any::<u64>()).prop_map(|(l, s)| Case { l, draws: 600, gen: Gen::Std(s), fresh: false, decoys: 0 });
        prop_oneof![1500 => usual, 50 => rare, 1 => flat, 5 => wide].boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let list = c.l.build();
        let r = Ref::for_spec(&list, &c.l);
        let n = r.n();
        // Cost is draws times length.
        let draws = match c.gen {
            Gen::Std(_) if n > 0 => (c.draws as usize).min(if c.draws == 50_000 { usize::MAX } else if c.draws > 400_000 { c.draws as usize * 16 } else if n > 50_000 { 200_000_000 } else { 3_000_000 } / n).max(1),
            _ => (c.draws as usize).min(200),
        };
        let mut s = SampleRandDistrib::new();
        let rng: Box<dyn RngCore + Send + Sync> = match &c.gen {
            Gen::Std(s) => Box::new(StdRng::seed_from_u64(*s)),
            Gen::Extreme(v) => Box::new(res::Fixed(v.clone(), 0)),
        };
        let mut res = SimpleSamplerResources::new(Some(rng), None);
        if !r.defined() {
            // No distribution: an error or a token of the list, nothing else.
            let mut l = list.clone();
            if let Ok(Some(t)) = s.sample_token(&mut res, &mut l) {
                ensure!(list.iter().any(|x| x.token_id == t), "token {t} is not in the list");
            }
            return Ok(());
        }
        let before = list.to_vec();
        let mut l = list.clone();
        let mut counts: HashMap<u32, u64> = HashMap::new();
        let fresh = c.fresh && n < 200;
        // Only the first draws come from others in between.
        let mut others = if c.decoys == 0 || n > 500 { vec![] } else { decoys(&list, c.decoys) };
        let mut fed = |d: usize, s: &mut SampleRandDistrib, res: &mut SimpleSamplerResources| {
            if !others.is_empty() && (d == 0 || (fresh && d < 400)) {
                let i = d % others.len();
                let _ = others[i].sample_token(res, s).is_ok();
            }
        };
        cov.label_if(c.decoys > 0 && n > 2, "similar lists in between");
        for d in 0..draws {
            if fresh {
                l = list.clone();
            }
            fed(d, &mut s, &mut res);
            let t = s.sample_token(&mut res, &mut l).map_err(|e| format!("draw {d}: {e}"))?;
            ensure!(t == s.sampled_token_id(), "draw {d}: returned {t:?}, reports {:?}", s.sampled_token_id());
            match t {
                None => ensure!(n == 0, "draw {d}: no token from {n}"),
                Some(t) => {
                    ensure!(n > 0, "token {t} from an empty list");
                    *counts.entry(t).or_default() += 1;
                }
            }
        }
        check_same_tokens(&before, &l)?;
        check_flags(&l)?;
        let idx: HashMap<u32, f32> = before.iter().map(|x| (x.token_id, x.logit)).collect();
        for t in counts.keys() {
            let Some(l) = idx.get(t) else {
                return Err(format!("token {t} is not in the list"));
            };
            let d = r.sorted[0] as f64 - *l as f64;
            // exp(-104) is below the smallest f32.
            ensure!(*l != f32::NEG_INFINITY && d < 104.5, "token {t} with probability zero was picked (logit {l:?})");
        }
        if matches!(c.gen, Gen::Extreme(_)) {
            cov.label("extreme generator");
            return Ok(());
        }
        let nd = draws as f64;
        let by_bits: HashMap<u32, usize> =
            r.sorted.iter().enumerate().rev().map(|(i, l)| ((l + 0.0).to_bits(), i)).collect();
        let mut seen_mass = 0;
        let (mut chi, mut cells) = (0f64, 0f64);
        let ln = (2e12f64).ln();
        let fuzz = 3e-7 + 6e-8 * n as f64;
        let bound = |p: f64| (2.0 * nd * p * (1.0 - p).max(0.0) * ln).sqrt() + ln / 3.0 * 2.0 + nd * fuzz;
        // Every "at least as probable as" group as a whole.
        let mut order: Vec<&Logit> = before.iter().collect();
        order.sort_by(|a, b| b.logit.total_cmp(&a.logit));
        let (mut mass, mut got) = (0f64, 0f64);
        for (i, x) in order.iter().enumerate() {
            mass += r.p[i];
            got += counts.get(&x.token_id).copied().unwrap_or(0) as f64;
            let p = mass.min(1.0);
            let dev = bound(p) + nd * p.min(1.0 - p) * r.rounding(i) * 2.0 + nd * 1e-7;
            ensure!(
                (got - nd * p).abs() <= dev,
                "the {} most probable tokens have probability {p:.6}, but came up {got} times in {draws} draws (expected {:.1} +- {dev:.1})",
                i + 1, nd * p
            );
        }
        for b in &before {
            let i = by_bits[&(b.logit + 0.0).to_bits()];
            let p = r.p[i];
            if p > 1e-3 {
                seen_mass += 1;
            }
            let got = counts.get(&b.token_id).copied().unwrap_or(0) as f64;
            let dev = bound(p) + nd * p * r.rounding(i) * 2.0;
            if nd * p >= 0.5 {
                chi += (got - nd * p).powi(2) / (nd * p);
                cells += 1.0;
            }
            ensure!(
                (got - nd * p).abs() <= dev,
                "token {} has probability {p:.6}, but came up {got} times in {draws} draws (expected {:.1} +- {dev:.1})",
                b.token_id, nd * p
            );
        }
        // Pearson's statistic of the whole, with a bound passed with
        // probability below 1e-17.
        if cells > 1000.0 {
            let most = (cells + 2.0 * (cells * 40.0).sqrt() + 80.0) * 1.005;
            ensure!(chi <= most, "the {n} counts of {draws} draws are not those of the distribution: chi-square {chi:.0} for {cells} tokens");
            cov.label("chi-square of 1000 tokens or more");
        }
        cov.nontrivial_if(draws >= 500 && seen_mass >= 2);
        cov.label_if(draws >= 500_000, "500000 draws or more");
        cov.label_if(n > 65_536, "more than 65536 tokens");
        cov.label_if(draws >= 10_000, "10000 draws or more");
        cov.label_if(fresh, "fresh list per draw");
        cov.label_if(counts.len() > 10, "more than 10 different tokens");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
