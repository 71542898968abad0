//! C31: results depend on the logits, not on how tokens are numbered or listed.
use harness::{custom::*, prelude::*};

/// An injective numbering of the tokens 0, 1, 2, ...
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Numbering {
    mul: u32,
    add: u32,
    /// Rotates the number, so that tokens differ in high bits only.
    rot: u8,
}
impl Numbering {
    fn of(self, i: u32) -> u32 {
        i.wrapping_mul(self.mul.wrapping_mul(2).wrapping_add(1)).wrapping_add(self.add).rotate_left(self.rot as u32)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    /// Lists processed one after the other.
    lists: Vec<Vals>,
    samplers: Vec<S>,
    hist: Vec<u16>,
    names: [Numbering; 2],
    /// Another order for the tokens, and another state of the list.
    order: u64,
    prep: Prep,
    stale: u8,
    seed: u64,
}

/// What came out of one list: entries by token index, in list order.
#[derive(Debug, Clone, PartialEq)]
struct Out {
    list: Vec<(u32, u32, u32)>,
    token: Option<u32>,
    error: Option<String>,
    sorted: bool,
    ties: bool,
}

fn ties(v: &[f32]) -> bool {
    let mut v = v.to_vec();
    v.sort_by(f32::total_cmp);
    v.windows(2).any(|w| w[0] == w[1])
}

struct Setup<'a> {
    c: &'a Case,
    name: Numbering,
    /// None: as given.
    order: Option<u64>,
    prep: Prep,
    stale: u8,
    /// Tiny changes to the logits.
    jitter: Option<u64>,
}

impl Setup<'_> {
    fn run(&self) -> Vec<Out> {
        let c = self.c;
        let lists: Vec<Vec<f32>> = c.lists.iter().map(Vals::expand).collect();
        let n = lists.iter().map(Vec::len).max().unwrap_or(0).max(1);
        // Some tokens of the history and the biases are in no list.
        let universe = (n + n / 6 + 1) as u32;
        let names: Vec<u32> = (0..universe).map(|i| self.name.of(i)).collect();
        let index: std::collections::HashMap<u32, u32> = names.iter().enumerate().map(|(i, t)| (*t, i as u32)).collect();
        let mut samplers: Vec<Box<dyn Sampler>> = c
            .samplers
            .iter()
            .map(|s| match s {
                S::FlatBias(b) => {
                    let mut seen = std::collections::HashSet::new();
                    Box::new(SampleFlatBias::new(
                        b.iter().map(|(t, v)| (names[*t as usize % names.len()], v.0)).filter(|x| seen.insert(x.0)),
                    ))
                }
                s => s.boxed(&names),
            })
            .collect();
        let hist: Vec<u32> = c.hist.iter().map(|t| names[*t as usize % names.len()]).collect();
        let mut res = res::simple(Some(c.seed), Some(hist));
        let mut outs = vec![];
        let mut tie = false;
        let mut js = self.jitter;
        for vals in &lists {
            let mut idx: Vec<u32> = (0..vals.len() as u32).collect();
            if let Some(o) = self.order {
                let mut o = o;
                for i in (1..idx.len()).rev() {
                    idx.swap(i, (run_mix(&mut o) % (i as u64 + 1)) as usize);
                }
            }
            let mut l = Logits::default();
            for i in idx {
                let mut logit = vals[i as usize];
                if let Some(j) = js.as_mut() {
                    logit += (logit.abs() * 3e-7 + 3e-7) * ((run_mix(j) % 3) as f32 - 1.0);
                }
                let prob = [0.0, 0.7, -3.0, 1e9][self.stale as usize % 4];
                l.push(Logit { token_id: names[i as usize], logit, prob });
            }
            match self.prep {
                Prep::Raw => (),
                Prep::Sorted => drop(l.ensure_sorted().is_ok()),
                Prep::Softmax => drop(l.ensure_softmax().is_ok()),
                Prep::SoftmaxShuffled => {
                    drop(l.ensure_softmax().is_ok());
                    if l.len() > 1 {
                        l.rotate_left(1);
                        l.set_sorted(false);
                    }
                }
            }
            tie |= ties(vals);
            let (mut token, mut error) = (None, None);
            for s in &mut samplers {
                match s.as_mut().sample_token(&mut res, &mut l) {
                    Ok(t) => token = t,
                    Err(e) => {
                        (token, error) = (None, Some(err_text(&e)));
                        break;
                    }
                }
                tie |= ties(&l.iter().map(|x| x.logit).collect::<Vec<_>>());
            }
            if let Some(t) = token {
                let _ = res.with_last_tokens_mut(&mut |h| h.push(t));
            }
            outs.push(Out {
                list: l.iter().map(|x| (index.get(&x.token_id).copied().unwrap_or(u32::MAX), x.logit.to_bits(), x.prob.to_bits())).collect(),
                token: token.map(|t| index.get(&t).copied().unwrap_or(u32::MAX)),
                error,
                sorted: l.get_sorted(),
                ties: tie,
            });
        }
        outs
    }
}

fn run_mix(s: &mut u64) -> u64 {
    harness::run::splitmix(s)
}

/// Survivors and token only.
fn gist(o: &Out) -> (Vec<u32>, Option<u32>, bool) {
    let mut ids: Vec<u32> = o.list.iter().map(|x| x.0).collect();
    ids.sort_unstable();
    (ids, o.token, o.error.is_some())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C31";
    const RULE: &'static str = "Up to three lists through a chain (any order, or the documented one), once under each of two numberings of the tokens (compared by bits), then in another order, sorted or with softmax applied (same survivors, logits and token while all logits are distinct; a mismatch counts only if it is not within reach of rounding, decided by re-running with the logits changed by some 1e-7). Non-trivial: tokens were dropped or picked, the list has three or more entries and another numbering or order.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let vals = || {
            prop_oneof![
                1 => (gen::size_vocab(), any::<u64>(), prop_oneof![3 => (0.1f32..6.0).prop_map(|d| Shape::Normal(F(d))), 1 => gen::shape(true)]).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
                3 => (500u32..4000, any::<u64>(), gen::shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
                600 => vec(prop_oneof![4 => (-20.0f32..20.0).prop_map(F), 3 => (-3.0f32..3.0).prop_map(F)], 0..14).prop_map(Vals::Explicit),
                200 => vec(gen::value_wide(), 0..14).prop_map(Vals::Explicit),
                300 => (prop_oneof![9 => 0u32..120, 1 => dict::sizes(0, 1100)], any::<u64>(), gen::shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
                300 => (1u32..120, any::<u64>(), 0.1f32..6.0).prop_map(|(n, seed, d)| Vals::Expr { n, seed, shape: Shape::Normal(F(d)) }),
            ]
        };
        let keep = || prop_oneof![3 => 0usize..4, 1 => gen::count()];
        let free = vec(gen::s_any(), 0..6);
        let o = |s: BoxedStrategy<S>| gen::opt(s);
        let documented = (
            o(gen::s_bias(false)),
            vec(gen::s_penalty(), 0..3),
            vec(gen::s_filter(keep().boxed()), 0..3),
            o(gen::temp().prop_map(S::Temp).boxed()),
            gen::s_pick(),
        )
            .prop_map(|(a, b, c, d, e)| a.into_iter().chain(b).chain(c).chain(d).chain([e]).collect::<Vec<_>>());
        let numbering = || {
            prop_oneof![
                2 => Just(Numbering { mul: 0, add: 0, rot: 0 }),
                1 => proptest::sample::select(vec![8u8, 16, 24, 31]).prop_map(|rot| Numbering { mul: 0, add: 0, rot }),
                2 => any::<u32>().prop_map(|add| Numbering { mul: 0, add, rot: 0 }),
                1 => (dict::sizes(0, u32::MAX), 0u32..12).prop_map(|(v, d)| Numbering { mul: 0, add: v.wrapping_sub(d), rot: 0 }),
                1 => (0u32..200).prop_map(|add| Numbering { mul: u32::MAX, add, rot: 0 }),
                3 => (any::<u32>(), any::<u32>()).prop_map(|(mul, add)| Numbering { mul, add, rot: 0 }),
            ]
        };
        let hist = prop_oneof![3 => vec(0u16..6, 0..30), 1 => vec(any::<u16>(), 0..60)];
        (gen::seq(vals().boxed(), 1..4, 4..30, 300), prop_oneof![1 => free, 2 => documented], hist, [numbering(), numbering()], any::<u64>(), gen::prep(), 0u8..4, any::<u64>())
            .prop_map(|(lists, samplers, hist, names, order, prep, stale, seed)| Case { lists, samplers, hist, names, order, prep, stale, seed })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let base = Setup { c, name: c.names[0], order: None, prep: Prep::Raw, stale: 0, jitter: None };
        let a = base.run();
        let b = Setup { name: c.names[1], ..base }.run();
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            ensure!(x.token == y.token, "list {i}: token number {:?} is picked, under other names {:?}", x.token, y.token);
            ensure!(x.error.is_some() == y.error.is_some(), "list {i}: {:?}, under other names {:?}", x.error, y.error);
            let same_list = x.list.len() == y.list.len() && x.list.iter().zip(&y.list).all(|(p, q)| p.0 == q.0 && f(p.1, q.1) && f(p.2, q.2));
            ensure!(same_list, "list {i}: under other names the list is {:?} instead of {:?} (token, logit bits, prob bits)", y.list, x.list);
        }
        let moved = Setup { order: Some(c.order), prep: c.prep, stale: c.stale, ..base };
        let m = moved.run();
        let mut compared = 0;
        let mut first_bad = None;
        for (i, (x, y)) in a.iter().zip(&m).enumerate() {
            if x.ties || y.ties || x.list.iter().any(|e| f32::from_bits(e.1).is_nan()) {
                cov.label("ties");
                break;
            }
            if gist(x) != gist(y) {
                first_bad = Some(i);
                break;
            }
            let (mut p, mut q) = (x.list.clone(), y.list.clone());
            p.sort_unstable();
            q.sort_unstable();
            ensure!(p.iter().zip(&q).all(|(p, q)| f(p.1, q.1)), "list {i}: listed in another order the logits become {q:?} instead of {p:?}");
            if x.sorted && y.sorted {
                ensure!(x.list.iter().map(|e| e.0).eq(y.list.iter().map(|e| e.0)), "list {i}: different orders although both are sorted");
            }
            compared += 1;
        }
        if let Some(i) = first_bad {
            // Within reach of rounding?
            let fragile = (0..24).any(|j| {
                let o = Setup { jitter: Some(c.seed ^ j), ..base }.run();
                o.iter().zip(&a).take(i + 1).any(|(x, y)| gist(x) != gist(y))
            });
            ensure!(
                fragile,
                "list {i}: tokens {:?}, token {:?} {:?}; listed in another order ({:?}) {:?}, token {:?} {:?}",
                gist(&a[i]).0, a[i].token, a[i].error, c.prep, gist(&m[i]).0, m[i].token, m[i].error
            );
            cov.label("within rounding");
        }
        let longest = c.lists.iter().map(|l| l.expand().len()).max().unwrap_or(0);
        let acted = a.iter().any(|o| o.token.is_some()) || a.iter().zip(&c.lists).any(|(o, l)| o.list.len() < l.expand().len());
        cov.nontrivial_if(longest > 2 && acted && (c.names[0] != c.names[1] || compared > 0));
        cov.label_if(compared > 0, "another order compared");
        Ok(())
    }
}

/// Equal floats by bits (any NaN equals any NaN).
fn f(a: u32, b: u32) -> bool {
    a == b || (f32::from_bits(a).is_nan() && f32::from_bits(b).is_nan())
}

fn main() {
    harness::run::main::<P>()
}
