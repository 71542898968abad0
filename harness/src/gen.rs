//! Generators shared by the checks: logits in every state a caller can hand
//! them over in, token histories, sampler specifications.
use std::sync::OnceLock;

use llm_samplers::prelude::*;
use proptest::{collection::vec, option, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    dict,
    fl::F,
    run::splitmix,
};

// ---------------------------------------------------------------- logits

/// How the raw values are distributed.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Vals {
    /// Written out.
    Explicit(Vec<F>),
    /// Logits whose softmax is exact in binary: every probability is a power
    /// of two and so is their sum. `2^a` equal logits, then the listed entries
    /// (never the first) are split in two halves; `banned` `-inf` entries are
    /// added at the end.
    Dyadic { a: u8, splits: Vec<u8>, banned: u8 },
    /// `n` values expanded from `seed`.
    Expr { n: u32, seed: u64, shape: Shape },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Shape {
    /// Uniform in +-scale.
    Uniform(F),
    /// Roughly normal with the given deviation, as real model output.
    Normal(F),
    /// Few levels, many ties.
    Levels { levels: u16, step: F },
    /// log of a Zipf law with the given exponent.
    Zipf(F),
    /// The same with another exponent after so many.
    Bent { e: F, at: u16, then: F },
    /// All equal.
    Const(F),
    /// Normal with one in `of` tokens at `-inf`.
    Masked { dev: F, of: u8 },
}

/// Token ids (distinct).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ids {
    /// 0, 1, 2, ...: as built from model output.
    Identity,
    /// n-1, ..., 0
    Reversed,
    /// base + i
    Offset(u32),
    /// (i * (2 * mul + 1) + add) mod 2^32
    Affine { mul: u32, add: u32 },
    /// i rotated left: ids that differ in high bits only.
    Rotated(u8),
}

/// In which state the list is handed over.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Prep {
    Raw,
    /// Already sorted and marked so.
    Sorted,
    /// Softmax was applied.
    Softmax,
    /// Softmax was applied, then the order was changed by the caller, who
    /// withdrew the sorted flag.
    SoftmaxShuffled,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct LIn {
    pub vals: Vals,
    pub ids: Ids,
    pub prep: Prep,
    /// Stale value left in the probability field (when no softmax applied).
    pub stale: u8,
    /// Of a case's first list: so many calls in all, the lists handed over
    /// again and again (0: each once).
    #[serde(default)]
    pub again: u32,
}

const STALE: [f32; 6] = [0.0, 0.9, 5.0, -1.0, 1e-9, f32::NAN];

/// `table()[k]` is an f32 whose `exp` is exactly `2^-k` (None: there is none).
fn table() -> &'static [Option<f32>] {
    static T: OnceLock<Vec<Option<f32>>> = OnceLock::new();
    T.get_or_init(|| {
        (0..=22)
            .map(|k| {
                let want = 2f32.powi(-k);
                let x = (-(k as f64) * std::f64::consts::LN_2) as f32;
                (0..=12)
                    .flat_map(|d| [d, -d])
                    .map(|d| crate::fl::ulps(x, d))
                    .map(|x| if k == 0 { 0.0 } else { x })
                    .find(|x| x.exp() == want)
            })
            .collect()
    })
}

fn unit(s: &mut u64) -> f64 {
    (splitmix(s) >> 11) as f64 / (1u64 << 53) as f64
}

fn normal(s: &mut u64) -> f64 {
    (0..6).map(|_| unit(s)).sum::<f64>() * std::f64::consts::SQRT_2 - 3.0 * std::f64::consts::SQRT_2
}

/// `2^a` entries: up to 64, or now and then as many as a vocabulary has.
fn dyadic_a(a: u8) -> u8 {
    if a >= 250 {
        (a - 250) * 2 + 5
    } else {
        a % 7
    }
}

impl Vals {
    pub fn expand(&self) -> Vec<f32> {
        match self {
            Vals::Explicit(v) => v.iter().map(|f| f.0).collect(),
            Vals::Dyadic { .. } => self
                .dyadic()
                .unwrap_or_default()
                .iter()
                .map(|k| k.map_or(f32::NEG_INFINITY, |k| table()[k as usize].unwrap_or(0.0)))
                .collect(),
            Vals::Expr { n, seed, shape } => {
                let mut s = *seed;
                (0..*n)
                    .map(|i| match *shape {
                        Shape::Uniform(d) => ((unit(&mut s) * 2.0 - 1.0) * d.0 as f64) as f32,
                        Shape::Normal(d) => (normal(&mut s) * d.0 as f64) as f32,
                        Shape::Levels { levels, step } => {
                            (splitmix(&mut s) % (levels as u64 + 1)) as f32 * step.0
                        }
                        Shape::Zipf(e) => (-(e.0 as f64) * ((i + 1) as f64).ln()) as f32,
                        Shape::Bent { e, at, then } => {
                            let (x, at) = (((i + 1) as f64).ln(), (at as f64 + 1.0).ln());
                            (-(e.0 as f64) * x.min(at) - then.0 as f64 * (x - at).max(0.0)) as f32
                        }
                        Shape::Const(c) => c.0,
                        Shape::Masked { dev, of } => {
                            if splitmix(&mut s) % (of as u64 + 2) == 0 {
                                f32::NEG_INFINITY
                            } else {
                                (normal(&mut s) * dev.0 as f64) as f32
                            }
                        }
                    })
                    .collect()
            }
        }
    }

    /// Exponents of a dyadic distribution before normalisation (None: `-inf`).
    fn dyadic(&self) -> Option<Vec<Option<u8>>> {
        let Vals::Dyadic { a, splits, banned } = self else {
            return None;
        };
        let a = dyadic_a(*a).max(if splits.is_empty() { 0 } else { 1 });
        let mut v = vec![Some(0u8); 1 << a];
        for s in splits {
            let i = 1 + *s as usize % (v.len() - 1);
            let k = v[i].unwrap_or(0);
            if k + a >= 21 || table()[k as usize + 1].is_none() {
                continue;
            }
            v[i] = Some(k + 1);
            v.push(Some(k + 1));
        }
        v.extend(std::iter::repeat(None).take(*banned as usize));
        Some(v)
    }

    /// The exact probabilities of a dyadic distribution, in list order.
    pub fn dyadic_probs(&self) -> Option<Vec<f64>> {
        let v = self.dyadic()?;
        let Vals::Dyadic { a, splits, .. } = self else {
            return None;
        };
        let a = dyadic_a(*a).max(if splits.is_empty() { 0 } else { 1 });
        Some(
            v.iter()
                .map(|k| k.map_or(0.0, |k| 2f64.powi(-(k as i32) - a as i32)))
                .collect(),
        )
    }
}

impl Vals {
    pub fn len(&self) -> usize {
        match self {
            Vals::Explicit(v) => v.len(),
            Vals::Dyadic { .. } => self.dyadic().map_or(0, |v| v.len()),
            Vals::Expr { n, .. } => *n as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

/// The items in turn, `again` in all (fewer when they are large), or each once.
pub fn cycled<T>(items: &[T], again: u32, size: impl Fn(&T) -> usize) -> impl Iterator<Item = &T> {
    let mut n = items.len();
    if again > 0 && n > 0 {
        let average = 1 + items.iter().map(size).sum::<usize>() / n;
        n = n.max((again as usize).min(2_000_000 / average));
    }
    items.iter().cycle().take(n)
}

/// The lists of a case, see `LIn::again`.
pub fn turns<T>(items: &[T], list: impl Fn(&T) -> &LIn) -> impl Iterator<Item = &T> {
    let again = items.first().map_or(0, |x| list(x).again);
    cycled(items, again, move |x| list(x).vals.len())
}

/// How many calls one sampler sees: mostly as many as there are steps.
pub fn again() -> BoxedStrategy<u32> {
    prop_oneof![12_000 => Just(0u32), 8 => 20u32..300, 6 => 300u32..2600, 1 => 65_530u32..65_560].boxed()
}

impl LIn {
    pub fn ids(&self, n: usize) -> Vec<u32> {
        (0..n as u32)
            .map(|i| match self.ids {
                Ids::Identity => i,
                Ids::Reversed => n as u32 - 1 - i,
                Ids::Offset(b) => b.wrapping_add(i),
                Ids::Affine { mul, add } => {
                    i.wrapping_mul(mul.wrapping_mul(2).wrapping_add(1)).wrapping_add(add)
                }
                Ids::Rotated(by) => i.rotate_left(by as u32),
            })
            .collect()
    }

    /// Build the list, using the crate's own entry points for the prep step.
    pub fn build(&self) -> Logits {
        let vals = self.vals.expand();
        let ids = self.ids(vals.len());
        let stale = STALE[self.stale as usize % STALE.len()];
        let mut l = Logits::default();
        l.extend(ids.iter().zip(vals).map(|(&token_id, logit)| Logit {
            token_id,
            logit,
            prob: stale,
        }));
        match self.prep {
            Prep::Raw => (),
            Prep::Sorted => {
                l.sort_by(|a, b| b.logit.total_cmp(&a.logit));
                l.set_sorted(true);
            }
            Prep::Softmax => {
                let _ = l.ensure_softmax();
            }
            Prep::SoftmaxShuffled => {
                let _ = l.ensure_softmax();
                let n = l.len();
                if n > 1 {
                    l.reverse();
                    l.rotate_left(n / 3);
                    l.set_sorted(false);
                }
            }
        }
        l
    }
}

/// Ordinary logit values: what a model emits, plus ties and signed zeros.
pub fn value_plain() -> BoxedStrategy<F> {
    prop_oneof![
        5 => (-20.0f32..20.0).prop_map(F),
        3 => (-8i32..9).prop_map(|i| F(i as f32 * 0.5)),
        2 => (-1.5f32..1.5).prop_map(F),
        1 => prop::sample::select(vec![0.0f32, -0.0, 1.0, -1.0, 88.0, -88.0, 104.0, -104.0, 0.1, 0.2, 0.3]).prop_map(F),
        1 => dict::floats(-104.0, 104.0),
    ]
    .boxed()
}

/// Plain values, `-inf`, and extreme magnitudes; no `+inf`, no NaN.
pub fn value_wide() -> BoxedStrategy<F> {
    prop_oneof![
        10 => value_plain(),
        2 => Just(F(f32::NEG_INFINITY)),
        1 => (-1000.0f32..1000.0).prop_map(F),
        1 => prop::sample::select(vec![
            f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, 1e30, -1e30,
            1e-30, -1e-30, 65504.0, -65504.0, 16777216.0, f32::EPSILON
        ]).prop_map(F),
        1 => dict::floats(f32::MIN, f32::MAX),
    ]
    .boxed()
}

pub fn shape(masked: bool) -> BoxedStrategy<Shape> {
    let base = prop_oneof![
        2 => (0.01f32..30.0).prop_map(|d| Shape::Uniform(F(d))),
        4 => (0.05f32..6.0).prop_map(|d| Shape::Normal(F(d))),
        2 => (1u16..40, 0.05f32..2.0).prop_map(|(levels, s)| Shape::Levels { levels, step: F(s) }),
        2 => (0.1f32..3.0).prop_map(|s| Shape::Zipf(F(s))),
        1 => value_plain().prop_map(Shape::Const),
    ];
    if masked {
        prop_oneof![
            8 => base,
            2 => ((0.05f32..6.0).prop_map(F), 0u8..30).prop_map(|(dev, of)| Shape::Masked { dev, of }),
        ]
        .boxed()
    } else {
        base.boxed()
    }
}

/// List lengths that sit on or near the usual thresholds.
pub fn size_interesting() -> BoxedStrategy<u32> {
    prop_oneof![
        20 => 0u32..40,
        10 => 20u32..140,
        4 => prop::sample::select(vec![15u32, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257]),
        3 => 140u32..700,
        1 => prop::sample::select(vec![511u32, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049]),
        2 => dict::sizes(0, 2100),
    ]
    .boxed()
}

/// Vocabulary-sized lists; use sparingly.
pub fn size_vocab() -> BoxedStrategy<u32> {
    prop_oneof![
        60 => 2000u32..6000,
        40 => prop::sample::select(vec![4095u32, 4096, 4097, 8191, 8192, 8193, 10_000, 16_384, 32_000, 32_767, 32_768, 32_769]),
        20 => prop::sample::select(vec![50_257u32, 65_535, 65_536, 65_537, 100_352, 128_256, 151_936]),
        20 => dict::sizes(2000, 160_000),
        // More than any vocabulary there is today.
        1 => prop_oneof![2 => 200_000u32..300_000, 1 => 500_000u32..1_100_000],
    ]
    .boxed()
}

pub fn ids() -> BoxedStrategy<Ids> {
    prop_oneof![
        3 => Just(Ids::Identity),
        2 => Just(Ids::Reversed),
        1 => any::<u32>().prop_map(Ids::Offset),
        1 => prop::sample::select(vec![1u32, 100, 255, 65_535, 65_536, u32::MAX - 700, u32::MAX - 1, i32::MAX as u32 - 3]).prop_map(Ids::Offset),
        3 => (any::<u32>(), any::<u32>()).prop_map(|(mul, add)| Ids::Affine { mul, add }),
        1 => prop::sample::select(vec![8u8, 16, 24, 31]).prop_map(Ids::Rotated),
        1 => (dict::sizes(0, u32::MAX), 0u32..12).prop_map(|(v, d)| Ids::Offset(v.wrapping_sub(d))),
    ]
    .boxed()
}

pub fn prep() -> BoxedStrategy<Prep> {
    prop_oneof![
        4 => Just(Prep::Raw),
        2 => Just(Prep::Sorted),
        3 => Just(Prep::Softmax),
        1 => Just(Prep::SoftmaxShuffled),
    ]
    .boxed()
}

pub fn dyadic() -> BoxedStrategy<Vals> {
    (0u8..7, vec(any::<u8>(), 0..12), prop_oneof![3 => Just(0u8), 1 => 1u8..6])
        .prop_map(|(a, splits, banned)| Vals::Dyadic { a, splits, banned })
        .boxed()
}

/// The same with as many entries as a vocabulary has.
fn dyadic_vocab() -> BoxedStrategy<Vals> {
    (250u8..=255, vec(any::<u8>(), 0..6), prop_oneof![3 => Just(0u8), 1 => 1u8..6])
        .prop_map(|(a, splits, banned)| Vals::Dyadic { a, splits, banned })
        .boxed()
}

pub fn vals_small() -> BoxedStrategy<Vals> {
    prop_oneof![
        5 => vec(value_plain(), 0..13).prop_map(Vals::Explicit),
        3 => vec(value_wide(), 0..13).prop_map(Vals::Explicit),
        2 => vec(value_wide(), 0..50).prop_map(Vals::Explicit),
        4 => dyadic(),
        3 => (size_interesting(), any::<u64>(), shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
    ]
    .boxed()
}

pub fn vals(vocab_weight: u32) -> BoxedStrategy<Vals> {
    if vocab_weight == 0 {
        return vals_small();
    }
    let more = if dict::has_int(2101, 160_000) { vocab_weight } else { 0 };
    prop_oneof![
        1000 => vals_small(),
        vocab_weight => (size_vocab(), any::<u64>(), shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
        vocab_weight => dyadic_vocab(),
        more => (dict::sizes(2101, 160_000), any::<u64>(), shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
    ]
    .boxed()
}

/// `vocab_weight` in 1000 lists is vocabulary sized.
pub fn lin(vocab_weight: u32) -> BoxedStrategy<LIn> {
    (vals(vocab_weight), ids(), prep(), 0u8..6, again())
        .prop_map(|(vals, ids, prep, stale, again)| LIn { vals, ids, prep, stale, again })
        .boxed()
}

/// Like `lin`, with every list short: for checks that run many steps.
pub fn lin_short() -> BoxedStrategy<LIn> {
    let v = prop_oneof![
        4 => vec(value_plain(), 0..10).prop_map(Vals::Explicit),
        2 => vec(value_wide(), 0..10).prop_map(Vals::Explicit),
        1 => vec(value_plain(), 10..40).prop_map(Vals::Explicit),
        1 => dyadic(),
        1 => (prop_oneof![8 => 0u32..120, 1 => dict::sizes(0, 1200)], any::<u64>(), shape(true)).prop_map(|(n, seed, shape)| Vals::Expr { n, seed, shape }),
    ];
    (v, ids(), prep(), 0u8..6)
        .prop_map(|(vals, ids, prep, stale)| LIn { vals, ids, prep, stale, again: 0 })
        .boxed()
}

// ---------------------------------------------------------------- parameters

/// A count such as `k` or `min_keep`.
pub fn count() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..6,
        4 => 0usize..20,
        3 => 0usize..150,
        1 => prop::sample::select(vec![
            31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65_535,
            65_536, 1 << 31, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX
        ]),
        1 => dict::counts(0, usize::MAX),
    ]
    .boxed()
}

/// A value in and around `[0, 1]`.
pub fn fraction() -> BoxedStrategy<F> {
    prop_oneof![
        6 => (0.0f32..1.0).prop_map(F),
        3 => (0u8..=16).prop_map(|i| F(i as f32 / 16.0)),
        1 => prop::sample::select(vec![0.0f32, -0.0, 1.0, 0.5, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.999_999_94, 1.000_000_1,
            1.5, 2.0, -0.5, -1.0, 1e-6, 1e-30, 1e-40, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]).prop_map(F),
        1 => dict::floats(-2.0, 2.0),
    ]
    .boxed()
}

/// Selects a threshold: a plain value, or a critical value of the case
/// (resolved by the check), moved by some representable steps.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Sel {
    Val(F),
    At(u16, i8),
}

pub fn sel() -> BoxedStrategy<Sel> {
    prop_oneof![
        3 => fraction().prop_map(Sel::Val),
        4 => (any::<u16>(), prop_oneof![4 => Just(0i8), 1 => -2i8..3]).prop_map(|(i, u)| Sel::At(i, u)),
    ]
    .boxed()
}

/// A finite penalty or bias.
pub fn amount() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (0.0f32..3.0).prop_map(F),
        2 => (-3.0f32..3.0).prop_map(F),
        2 => (-8i32..9).prop_map(|i| F(i as f32 * 0.25)),
        1 => prop::sample::select(vec![0.0f32, -0.0, 1e-6, 0.05, 0.1, 1.0, 100.0, -100.0, 1e6, 1e-38]).prop_map(F),
        1 => dict::floats(-1e6, 1e6),
    ]
    .boxed()
}

/// Mostly sequences of the usual length, one in `of` a long one.
pub fn seq<T: Clone + std::fmt::Debug + 'static>(
    e: impl Strategy<Value = T> + Clone + 'static,
    usual: std::ops::Range<usize>,
    long: std::ops::Range<usize>,
    of: u32,
) -> BoxedStrategy<Vec<T>> {
    prop_oneof![of - 1 => vec(e.clone(), usual), 1 => vec(e, long)].boxed()
}

// ---------------------------------------------------------------- histories

/// A token reference, resolved against the ids of the current list; some miss.
pub type Tok = u16;

pub fn resolve(t: Tok, ids: &[u32]) -> u32 {
    if ids.is_empty() {
        return t as u32;
    }
    let n = ids.len();
    let i = t as usize % (n + 1 + n / 6);
    if i < n {
        ids[i]
    } else {
        // Usually not an id of the list.
        match t as usize / (n + 1 + n / 6) % 5 {
            // Shares its low bits with one.
            k @ 1..=4 => ids[t as usize % n] ^ (1 << [8, 16, 24, 31][k - 1]),
            _ => 0xFFF0_0000u32.wrapping_add(i as u32),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Hist {
    Toks(Vec<Tok>),
    Runs(Vec<(Tok, u16)>),
    /// The motif again and again, each time followed by another token.
    Motif { motif: Vec<Tok>, follow: Vec<Tok> },
    /// `len` times `fill`, with other tokens at these places from the end.
    Far { fill: Tok, len: u32, marks: Vec<(u32, Tok)> },
    /// `len` tokens drawn from `of` different ones.
    Many { of: Tok, len: u32, seed: u64 },
}

impl Hist {
    pub fn len(&self) -> usize {
        match self {
            Hist::Toks(v) => v.len(),
            Hist::Runs(v) => v.iter().map(|x| x.1 as usize).sum(),
            Hist::Motif { motif, follow } => (motif.len() + 1) * follow.len() + motif.len(),
            Hist::Far { len, .. } | Hist::Many { len, .. } => *len as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn expand(&self, ids: &[u32]) -> Vec<u32> {
        match self {
            Hist::Toks(v) => v.iter().map(|t| resolve(*t, ids)).collect(),
            Hist::Runs(v) => v
                .iter()
                .flat_map(|(t, c)| std::iter::repeat(resolve(*t, ids)).take(*c as usize))
                .collect(),
            Hist::Motif { motif, follow } => {
                let motif: Vec<u32> = motif.iter().map(|t| resolve(*t, ids)).collect();
                let mut v = vec![];
                for f in follow {
                    v.extend(&motif);
                    v.push(resolve(*f, ids));
                }
                v.extend(&motif);
                v
            }
            Hist::Far { fill, len, marks } => {
                let n = *len as usize;
                let mut v = vec![resolve(*fill, ids); n];
                for (at, t) in marks {
                    if n > 0 {
                        v[n - 1 - *at as usize % n] = resolve(*t, ids);
                    }
                }
                v
            }
            Hist::Many { of, len, seed } => {
                let mut s = *seed;
                (0..*len).map(|_| resolve((splitmix(&mut s) % (*of as u64 + 1)) as Tok, ids)).collect()
            }
        }
    }
}

pub fn hist() -> BoxedStrategy<Hist> {
    prop_oneof![
        5 => vec(0u16..12, 0..14).prop_map(Hist::Toks),
        3 => vec(any::<u16>(), 0..40).prop_map(Hist::Toks),
        2 => vec(0u16..30, 30..150).prop_map(Hist::Toks),
        1 => vec((any::<u16>(), prop_oneof![3 => 1u16..80, 1 => 200u16..400, 1 => dict::counts(1, 1000).prop_map(|c| c as u16)]), 0..6).prop_map(Hist::Runs),
        2 => (vec(0u16..8, 1..5), vec(prop_oneof![3 => 0u16..20, 1 => any::<u16>()], 1..14)).prop_map(|(motif, follow)| Hist::Motif { motif, follow }),
    ]
    .boxed()
}

/// Also very long ones (not for samplers that look for sequences).
pub fn hist_long() -> BoxedStrategy<Hist> {
    let len = prop_oneof![4 => 150u32..2000, 2 => 2000u32..12_000, 1 => 12_000u32..70_000];
    let at = prop_oneof![1 => 0u32..70_000, 1 => 0u32..3000, 1 => proptest::sample::select(vec![63u32, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8192, 65_535])];
    let len = prop_oneof![6 => len, 1 => dict::sizes(150, 80_000)];
    let at = prop_oneof![4 => at, 1 => dict::sizes(0, 80_000)];
    let far = (any::<Tok>(), len, vec((at, any::<Tok>()), 0..8)).prop_map(|(fill, len, marks)| Hist::Far { fill, len, marks });
    prop_oneof![150 => hist(), 1 => far].boxed()
}

/// A list and a history that mentions many different tokens of it.
pub fn many_tokens() -> BoxedStrategy<(LIn, Hist)> {
    let n = prop_oneof![6 => 200u32..1500, 2 => 1500u32..5000, 1 => 60_000u32..70_000];
    let n = prop_oneof![6 => n, 1 => dict::sizes(100, 70_000)];
    (n, any::<u64>(), shape(true), ids(), prep(), 1u32..5)
        .prop_map(|(n, seed, shape, ids, prep, times)| {
            let len = n / 2 * if n > 5000 { 1 } else { times };
            let list = LIn { vals: Vals::Expr { n, seed, shape }, ids, prep, stale: 0, again: 0 };
            (list, Hist::Many { of: (n + n / 8).min(65_535) as Tok, len, seed })
        })
        .boxed()
}

/// A list and a history for it; one in `of` with many different tokens.
pub fn lin_hist(of: u32) -> BoxedStrategy<(LIn, Hist)> {
    prop_oneof![of - 1 => (lin(2), hist_long()), 1 => many_tokens()].boxed()
}

// ---------------------------------------------------------------- samplers

/// A sampler and its parameters. Token references are resolved against the
/// ids of the list in use.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum S {
    FlatBias(Vec<(Tok, F)>),
    Rep { penalty: F, last_n: usize },
    FreqPres { freq: F, pres: F, last_n: usize },
    SeqRep { flat: F, stack: F, min_length: usize, tolerance: usize, max_merge: usize, last_n: usize },
    TopK { k: usize, min_keep: usize },
    TailFree { z: F, min_keep: usize },
    Typical { p: F, min_keep: usize },
    TopP { p: F, min_keep: usize },
    MinP { p: F, min_keep: usize },
    TopA { a1: F, a2: F, min_keep: usize },
    Temp(F),
    Greedy,
    Rand,
    Miro1 { n_vocab: usize, tau: F, eta: F },
    Miro2 { tau: F, eta: F },
}

impl S {
    pub fn picks(&self) -> bool {
        matches!(self, S::Greedy | S::Rand | S::Miro1 { .. } | S::Miro2 { .. })
    }
    pub fn random(&self) -> bool {
        self.picks() && *self != S::Greedy
    }
    /// What a call costs on top of the list, in tokens of a list.
    pub fn weight(&self) -> usize {
        match self {
            S::SeqRep { last_n, .. } => (*last_n).min(400).pow(3) / 100,
            S::Rep { last_n, .. } | S::FreqPres { last_n, .. } => (*last_n).min(400) / 4,
            _ => 0,
        }
    }
    pub fn is_filter(&self) -> bool {
        matches!(
            self,
            S::TopK { .. } | S::TailFree { .. } | S::Typical { .. } | S::TopP { .. } | S::MinP { .. } | S::TopA { .. }
        )
    }
}

impl S {
    /// The same with its threshold moved by a rounding or so.
    pub fn nudged(&self, j: u64) -> S {
        let f = |x: F| F(x.0 * (1.0 + 3e-7 * ((crate::run::splitmix(&mut (j ^ 0x5eed)) % 3) as f32 - 1.0)));
        match self.clone() {
            S::TailFree { z, min_keep } => S::TailFree { z: f(z), min_keep },
            S::Typical { p, min_keep } => S::Typical { p: f(p), min_keep },
            S::TopP { p, min_keep } => S::TopP { p: f(p), min_keep },
            S::MinP { p, min_keep } => S::MinP { p: f(p), min_keep },
            S::TopA { a1, a2, min_keep } => S::TopA { a1: f(a1), a2, min_keep },
            S::Miro1 { n_vocab, tau, eta } => S::Miro1 { n_vocab, tau: f(tau), eta },
            S::Miro2 { tau, eta } => S::Miro2 { tau: f(tau), eta },
            s => s,
        }
    }
}

/// Bind `$s` to the concrete sampler described by `$spec` and run `$body`.
#[macro_export]
macro_rules! with_sampler {
    ($spec:expr, $ids:expr, |$s:ident| $body:expr) => {{
        use llm_samplers::prelude::*;
        use $crate::gen::S as Spec;
        match $spec {
            Spec::FlatBias(b) => {
                let ids: &[u32] = $ids;
                #[allow(unused_mut)]
                let mut $s = SampleFlatBias::new(b.iter().map(|(t, v)| ($crate::gen::resolve(*t, ids), v.0)));
                $body
            }
            Spec::Rep { penalty, last_n } => {
                #[allow(unused_mut)]
                let mut $s = SampleRepetition::new(penalty.0, *last_n);
                $body
            }
            Spec::FreqPres { freq, pres, last_n } => {
                #[allow(unused_mut)]
                let mut $s = SampleFreqPresence::new(freq.0, pres.0, *last_n);
                $body
            }
            Spec::SeqRep { flat, stack, min_length, tolerance, max_merge, last_n } => {
                #[allow(unused_mut)]
                let mut $s = SampleSeqRepetition::new(flat.0, stack.0, *min_length, *tolerance, *max_merge, *last_n);
                $body
            }
            Spec::TopK { k, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleTopK::new(*k, *min_keep);
                $body
            }
            Spec::TailFree { z, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleTailFree::new(z.0, *min_keep);
                $body
            }
            Spec::Typical { p, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleLocallyTypical::new(p.0, *min_keep);
                $body
            }
            Spec::TopP { p, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleTopP::new(p.0, *min_keep);
                $body
            }
            Spec::MinP { p, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleMinP::new(p.0, *min_keep);
                $body
            }
            Spec::TopA { a1, a2, min_keep } => {
                #[allow(unused_mut)]
                let mut $s = SampleTopA::new(a1.0, a2.0, *min_keep);
                $body
            }
            Spec::Temp(t) => {
                #[allow(unused_mut)]
                let mut $s = SampleTemperature::new(t.0);
                $body
            }
            Spec::Greedy => {
                #[allow(unused_mut)]
                let mut $s = SampleGreedy::new();
                $body
            }
            Spec::Rand => {
                #[allow(unused_mut)]
                let mut $s = SampleRandDistrib::new();
                $body
            }
            Spec::Miro1 { n_vocab, tau, eta } => {
                #[allow(unused_mut)]
                let mut $s = SampleMirostat1::new(*n_vocab, tau.0, eta.0);
                $body
            }
            Spec::Miro2 { tau, eta } => {
                #[allow(unused_mut)]
                let mut $s = SampleMirostat2::new(tau.0, eta.0);
                $body
            }
        }
    }};
}

impl S {
    pub fn boxed(&self, ids: &[u32]) -> Box<dyn Sampler> {
        with_sampler!(self, ids, |s| Box::new(s))
    }
}

pub fn temp() -> BoxedStrategy<F> {
    prop_oneof![
        6 => (0.05f32..4.0).prop_map(F),
        1 => prop::sample::select(vec![0.01f32, 0.1, 0.25, 0.5, 0.7, 0.8, 1.0, 1.5, 2.0, 4.0, 10.0, 100.0, 0.0, -0.0]).prop_map(F),
        1 => dict::floats(0.01, 100.0),
    ]
    .boxed()
}

/// Temperatures below zero reverse the ranking; they are accepted too.
pub fn temp_signed() -> BoxedStrategy<F> {
    prop_oneof![8 => temp(), 1 => (-4.0f32..-0.05).prop_map(F)].boxed()
}

pub fn last_n() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..20,
        2 => 0usize..160,
        1 => prop::sample::select(vec![63usize, 64, 65, 127, 128, 255, 256, 257, 1000, usize::MAX]),
        1 => dict::counts(0, usize::MAX),
    ]
    .boxed()
}

pub fn s_bias(neg_inf: bool) -> BoxedStrategy<S> {
    let v = if neg_inf {
        prop_oneof![3 => amount(), 2 => Just(F(f32::NEG_INFINITY))].boxed()
    } else {
        amount()
    };
    vec((0u16..40, v), 0..6)
        .prop_map(|mut b| {
            let mut seen = std::collections::HashSet::new();
            b.retain(|(t, _)| seen.insert(*t));
            S::FlatBias(b)
        })
        .boxed()
}

pub fn s_penalty() -> BoxedStrategy<S> {
    prop_oneof![
        (prop_oneof![4 => 1.0f32..3.0, 1 => 0.0f32..1.2, 1 => Just(50.0f32), 1 => dict::floats(-50.0, 100.0).prop_map(|f| f.0)].prop_map(F), last_n())
            .prop_map(|(penalty, last_n)| S::Rep { penalty, last_n }),
        (amount(), amount(), last_n()).prop_map(|(freq, pres, last_n)| S::FreqPres { freq, pres, last_n }),
        (amount(), amount(), 0usize..6, 0usize..3, 0usize..4, last_n()).prop_map(
            |(flat, stack, min_length, tolerance, max_merge, last_n)| S::SeqRep {
                flat, stack, min_length, tolerance, max_merge, last_n: last_n.min(200)
            }
        ),
    ]
    .boxed()
}

pub fn s_filter(min_keep: BoxedStrategy<usize>) -> BoxedStrategy<S> {
    let m = min_keep;
    prop_oneof![
        (count(), m.clone()).prop_map(|(k, min_keep)| S::TopK { k, min_keep }),
        (fraction(), m.clone()).prop_map(|(z, min_keep)| S::TailFree { z, min_keep }),
        (fraction(), m.clone()).prop_map(|(p, min_keep)| S::Typical { p, min_keep }),
        (fraction(), m.clone()).prop_map(|(p, min_keep)| S::TopP { p, min_keep }),
        (fraction(), m.clone()).prop_map(|(p, min_keep)| S::MinP { p, min_keep }),
        (fraction(), prop_oneof![6 => (0.0f32..4.0).prop_map(F), 2 => (-2.0f32..0.0).prop_map(F), 1 => dict::floats(-2.0, 4.0)], m)
            .prop_map(|(a1, a2, min_keep)| S::TopA { a1, a2, min_keep }),
    ]
    .boxed()
}

fn tau() -> BoxedStrategy<F> {
    prop_oneof![8 => (0.5f32..8.0).prop_map(F), 1 => dict::floats(0.5, 8.0)].boxed()
}

fn eta() -> BoxedStrategy<F> {
    prop_oneof![8 => (0.01f32..1.0).prop_map(F), 1 => dict::floats(0.01, 1.0)].boxed()
}

pub fn s_pick() -> BoxedStrategy<S> {
    prop_oneof![
        Just(S::Greedy),
        Just(S::Rand),
        (prop_oneof![6 => 2usize..300, 2 => Just(32_000usize), 1 => dict::counts(2, 300_000)], tau(), eta())
            .prop_map(|(n_vocab, tau, eta)| S::Miro1 { n_vocab, tau, eta }),
        (tau(), eta()).prop_map(|(tau, eta)| S::Miro2 { tau, eta }),
    ]
    .boxed()
}

/// Any sampler with finite, ordinary parameters.
pub fn s_any() -> BoxedStrategy<S> {
    prop_oneof![
        2 => s_bias(true),
        4 => s_penalty(),
        6 => s_filter(count()),
        2 => temp_signed().prop_map(S::Temp),
        3 => s_pick(),
    ]
    .boxed()
}

pub fn opt<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Option<T>> {
    option::of(s).boxed()
}
