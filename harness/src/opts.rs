//! Configurable samplers seen as tables of options, and a model of them.
use std::{borrow::Cow, marker::PhantomData};

use llm_samplers::{configure::*, prelude::*};
use proptest::{collection::vec, prelude::*, sample::select, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{dict, fl::F};

/// An `f64` compared by bits (any NaN equals any NaN) and written to JSON.
#[derive(Clone, Copy)]
pub struct D(pub f64);
impl D {
    fn key(self) -> u64 {
        if self.0.is_nan() {
            u64::MAX
        } else {
            self.0.to_bits()
        }
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl Eq for D {}
impl std::hash::Hash for D {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}
impl Serialize for D {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<De: serde::Deserializer<'de>>(d: De) -> Result<Self, De::Error> {
        use serde::de::Error as _;
        String::deserialize(d)?.parse::<f64>().map(D).map_err(De::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum V {
    U(u64),
    F(D),
    B(bool),
    S(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    U,
    F,
    B,
    S,
}

impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::U(_) => Ty::U,
            V::F(_) => Ty::F,
            V::B(_) => Ty::B,
            V::S(_) => Ty::S,
        }
    }
    pub fn option(&self) -> SamplerOptionValue<'static> {
        match self {
            V::U(v) => SamplerOptionValue::UInt(*v),
            V::F(v) => SamplerOptionValue::Float(v.0),
            V::B(v) => SamplerOptionValue::Bool(*v),
            V::S(v) => SamplerOptionValue::String(Cow::Owned(v.clone())),
        }
    }
    pub fn from_option(v: SamplerOptionValue<'_>) -> V {
        match v {
            SamplerOptionValue::UInt(v) => V::U(v),
            SamplerOptionValue::Float(v) => V::F(D(v)),
            SamplerOptionValue::Bool(v) => V::B(v),
            SamplerOptionValue::String(v) => V::S(v.to_string()),
        }
    }
}

pub fn ty(t: SamplerOptionType) -> Ty {
    match t {
        SamplerOptionType::UInt => Ty::U,
        SamplerOptionType::Float => Ty::F,
        SamplerOptionType::Bool => Ty::B,
        SamplerOptionType::String => Ty::S,
    }
}

pub fn option_type(t: Ty) -> SamplerOptionType {
    match t {
        Ty::U => SamplerOptionType::UInt,
        Ty::F => SamplerOptionType::Float,
        Ty::B => SamplerOptionType::Bool,
        Ty::S => SamplerOptionType::String,
    }
}

// ------------------------------------------------------------- the objects

/// An error of a caller's own.
#[derive(Debug, Clone, PartialEq)]
pub struct OwnError(pub u32);
impl std::fmt::Display for OwnError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "own error {}", self.0)
    }
}
impl std::error::Error for OwnError {}

#[derive(Debug, Clone, PartialEq)]
pub enum Why {
    Option(ConfigureSamplerError),
    UnknownSlot(String),
    StaticSlot(String),
    Failed(String, Box<Refusal>),
    Own(u32),
    Other,
}

/// What an error tells: its kind and its text.
#[derive(Debug, Clone, PartialEq)]
pub struct Refusal {
    pub why: Why,
    pub text: String,
}

impl Refusal {
    pub fn of(e: &anyhow::Error) -> Self {
        let why = if let Some(e) = e.downcast_ref::<ConfigureSamplerError>() {
            Why::Option(e.clone())
        } else if let Some(OwnError(n)) = e.downcast_ref() {
            Why::Own(*n)
        } else {
            match e.downcast_ref::<BuildSamplersError>() {
                Some(BuildSamplersError::UnknownSlot(n)) => Why::UnknownSlot(n.clone()),
                Some(BuildSamplersError::CannotConfigureStatic(n)) => Why::StaticSlot(n.clone()),
                Some(BuildSamplersError::ConfigureFailed { name, err }) => Why::Failed(name.clone(), Box::new(Self::of(err))),
                None => Why::Other,
            }
        };
        Self { why, text: e.to_string() }
    }
}

/// A configurable sampler, whatever its number types.
pub trait Obj {
    fn set(&mut self, key: &str, v: &V) -> Result<(), String>;
    fn get(&self, key: &str) -> Result<V, String>;
    fn configure(&mut self, s: &str) -> Result<(), String>;
    /// The same with what the error tells.
    fn try_set(&mut self, key: &str, v: &V) -> Result<(), Refusal>;
    fn try_get(&self, key: &str) -> Result<(), Refusal>;
    fn try_configure(&mut self, s: &str) -> Result<(), Refusal>;
    fn name(&self) -> &'static str;
    fn keys(&self) -> Vec<(&'static str, Ty)>;
    /// (key, type, accessible, type of the accessor) by `sampler_options[_mut]`.
    fn listed(&mut self) -> [Vec<(&'static str, Ty, Option<Ty>)>; 2];
}

pub struct Holder<T: ?Sized, UI, FL>(pub Box<T>, pub PhantomData<(UI, FL)>);

impl<T, UI, FL> Obj for Holder<T, UI, FL>
where
    T: ConfigurableSampler<UI, FL> + ?Sized,
    UI: ConfigurableNumValue,
    FL: ConfigurableNumValue,
{
    fn set(&mut self, key: &str, v: &V) -> Result<(), String> {
        self.0.set_option(key, v.option()).map_err(|e| e.to_string())
    }
    fn get(&self, key: &str) -> Result<V, String> {
        self.0.get_option(key).map(V::from_option).map_err(|e| e.to_string())
    }
    fn configure(&mut self, s: &str) -> Result<(), String> {
        self.0.configure(s).map_err(|e| e.to_string())
    }
    fn try_set(&mut self, key: &str, v: &V) -> Result<(), Refusal> {
        self.0.set_option(key, v.option()).map(|_| ()).map_err(|e| Refusal::of(&e))
    }
    fn try_get(&self, key: &str) -> Result<(), Refusal> {
        self.0.get_option(key).map(|_| ()).map_err(|e| Refusal::of(&e))
    }
    fn try_configure(&mut self, s: &str) -> Result<(), Refusal> {
        self.0.configure(s).map_err(|e| Refusal::of(&e))
    }
    fn name(&self) -> &'static str {
        self.0.sampler_metadata().name
    }
    fn keys(&self) -> Vec<(&'static str, Ty)> {
        self.0.sampler_metadata().options.iter().map(|o| (o.key, ty(o.option_type))).collect()
    }
    fn listed(&mut self) -> [Vec<(&'static str, Ty, Option<Ty>)>; 2] {
        let a = self
            .0
            .sampler_options()
            .iter()
            .map(|(md, v)| {
                let t = v.as_ref().map(|v| match v {
                    SamplerOptionValue::UInt(_) => Ty::U,
                    SamplerOptionValue::Float(_) => Ty::F,
                    SamplerOptionValue::Bool(_) => Ty::B,
                    SamplerOptionValue::String(_) => Ty::S,
                });
                (md.key, ty(md.option_type), t)
            })
            .collect();
        let b = self
            .0
            .sampler_options_mut()
            .iter()
            .map(|(md, v)| {
                let t = v.as_ref().map(|v| match v {
                    SamplerOptionValueMut::UInt(_) => Ty::U,
                    SamplerOptionValueMut::Float(_) => Ty::F,
                    SamplerOptionValueMut::Bool(_) => Ty::B,
                    SamplerOptionValueMut::String(_) => Ty::S,
                });
                (md.key, ty(md.option_type), t)
            })
            .collect();
        [a, b]
    }
}

pub type Buildable = Box<dyn BuildableSampler<usize, f32>>;

/// The kinds of built-in samplers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Which {
    FlatBias,
    Rep,
    FreqPres,
    SeqRep,
    TopK,
    TailFree,
    Typical,
    TopP,
    MinP,
    TopA,
    Temp,
    Greedy,
    Rand,
    Miro1,
    Miro2,
}
pub const ALL: [Which; 15] = [
    Which::FlatBias,
    Which::Rep,
    Which::FreqPres,
    Which::SeqRep,
    Which::TopK,
    Which::TailFree,
    Which::Typical,
    Which::TopP,
    Which::MinP,
    Which::TopA,
    Which::Temp,
    Which::Greedy,
    Which::Rand,
    Which::Miro1,
    Which::Miro2,
];

pub fn which() -> BoxedStrategy<Which> {
    prop_oneof![
        9 => select(vec![
            Which::Rep, Which::FreqPres, Which::SeqRep, Which::TopK, Which::TailFree, Which::Typical,
            Which::TopP, Which::MinP, Which::TopA, Which::Temp, Which::Miro1, Which::Miro2
        ]),
        1 => select(vec![Which::FlatBias, Which::Greedy, Which::Rand]),
    ]
    .boxed()
}

/// The documented options, in the order of `Vals`.
pub fn documented(w: Which) -> &'static [(&'static str, Ty)] {
    const MK: (&str, Ty) = ("min_keep", Ty::U);
    match w {
        Which::FlatBias | Which::Greedy | Which::Rand => &[],
        Which::Rep => &[("penalty", Ty::F), ("last_n", Ty::U)],
        Which::FreqPres => &[("frequency_penalty", Ty::F), ("presence_penalty", Ty::F), ("last_n", Ty::U)],
        Which::SeqRep => &[
            ("flat_penalty", Ty::F),
            ("stacking_penalty", Ty::F),
            ("min_length", Ty::U),
            ("tolerance", Ty::U),
            ("max_merge", Ty::U),
            ("last_n", Ty::U),
        ],
        Which::TopK => &[("k", Ty::U), MK],
        Which::TailFree => &[("z", Ty::F), MK],
        Which::Typical | Which::TopP | Which::MinP => &[("p", Ty::F), MK],
        Which::TopA => &[("a1", Ty::F), ("a2", Ty::F), MK],
        Which::Temp => &[("temperature", Ty::F)],
        Which::Miro1 => &[("tau", Ty::F), ("eta", Ty::F), ("mu", Ty::F), ("m", Ty::U), ("n_vocab", Ty::U)],
        Which::Miro2 => &[("tau", Ty::F), ("eta", Ty::F), ("mu", Ty::F)],
    }
}

pub fn fresh(w: Which) -> Buildable {
    match w {
        Which::FlatBias => Box::new(SampleFlatBias::default()),
        Which::Rep => Box::new(SampleRepetition::default()),
        Which::FreqPres => Box::new(SampleFreqPresence::default()),
        Which::SeqRep => Box::new(SampleSeqRepetition::default()),
        Which::TopK => Box::new(SampleTopK::default()),
        Which::TailFree => Box::new(SampleTailFree::default()),
        Which::Typical => Box::new(SampleLocallyTypical::default()),
        Which::TopP => Box::new(SampleTopP::default()),
        Which::MinP => Box::new(SampleMinP::default()),
        Which::TopA => Box::new(SampleTopA::default()),
        Which::Temp => Box::new(SampleTemperature::default()),
        Which::Greedy => Box::new(SampleGreedy::default()),
        Which::Rand => Box::new(SampleRandDistrib::default()),
        Which::Miro1 => Box::new(SampleMirostat1::default()),
        Which::Miro2 => Box::new(SampleMirostat2::default()),
    }
}

/// The sampler with these option values (in the documented order), by its
/// constructor or by the builder methods.
pub fn build_with(w: Which, v: &[V], builder: bool) -> Buildable {
    let f = |i: usize| match &v[i] {
        V::F(d) => d.0 as f32,
        other => panic!("option {i} of {w:?} is {other:?}"),
    };
    let u = |i: usize| match &v[i] {
        V::U(u) => *u as usize,
        other => panic!("option {i} of {w:?} is {other:?}"),
    };
    match (w, builder) {
        (Which::FlatBias | Which::Greedy | Which::Rand, _) => fresh(w),
        (Which::Rep, false) => Box::new(SampleRepetition::new(f(0), u(1))),
        (Which::Rep, true) => Box::new(SampleRepetition::default().penalty(f(0)).last_n(u(1))),
        (Which::FreqPres, false) => Box::new(SampleFreqPresence::new(f(0), f(1), u(2))),
        (Which::FreqPres, true) => Box::new(SampleFreqPresence::default().last_n(u(2)).presence(f(1)).frequency(f(0))),
        (Which::SeqRep, false) => Box::new(SampleSeqRepetition::new(f(0), f(1), u(2), u(3), u(4), u(5))),
        (Which::SeqRep, true) => Box::new(
            SampleSeqRepetition::default()
                .last_n(u(5))
                .max_merge(u(4))
                .tolerance(u(3))
                .min_length(u(2))
                .stacking_penalty(f(1))
                .flat_penalty(f(0)),
        ),
        (Which::TopK, false) => Box::new(SampleTopK::new(u(0), u(1))),
        (Which::TopK, true) => Box::new(SampleTopK::default().min_keep(u(1)).k(u(0))),
        (Which::TailFree, false) => Box::new(SampleTailFree::new(f(0), u(1))),
        (Which::TailFree, true) => Box::new(SampleTailFree::default().min_keep(u(1)).z(f(0))),
        (Which::Typical, false) => Box::new(SampleLocallyTypical::new(f(0), u(1))),
        (Which::Typical, true) => Box::new(SampleLocallyTypical::default().min_keep(u(1)).p(f(0))),
        (Which::TopP, false) => Box::new(SampleTopP::new(f(0), u(1))),
        (Which::TopP, true) => Box::new(SampleTopP::default().min_keep(u(1)).p(f(0))),
        (Which::MinP, false) => Box::new(SampleMinP::new(f(0), u(1))),
        (Which::MinP, true) => Box::new(SampleMinP::default().min_keep(u(1)).p(f(0))),
        (Which::TopA, false) => Box::new(SampleTopA::new(f(0), f(1), u(2))),
        (Which::TopA, true) => Box::new(SampleTopA::default().min_keep(u(2)).a2(f(1)).a1(f(0))),
        (Which::Temp, false) => Box::new(SampleTemperature::new(f(0))),
        (Which::Temp, true) => Box::new(SampleTemperature::default().temperature(f(0))),
        (Which::Miro1, false) => Box::new(SampleMirostat1::new(u(4), f(0), f(1)).mu(f(2)).m(u(3))),
        (Which::Miro1, true) => Box::new(SampleMirostat1::default().n_vocab(u(4)).eta(f(1)).tau(f(0)).m(u(3)).mu(f(2))),
        (Which::Miro2, false) => Box::new(SampleMirostat2::new(f(0), f(1)).mu(f(2))),
        (Which::Miro2, true) => Box::new(SampleMirostat2::default().eta(f(1)).tau(f(0)).mu(f(2))),
    }
}

// ------------------------------------------------------------- own samplers

/// Names that are prefixes of each other, or of nothing else.
const POOL: [&str; 14] = [
    "a", "ab", "abc", "abd", "b", "bias", "bias_2", "x", "xyz", "long_name", "long_names", "k", "min", "min_keep",
];

/// One of those, or one of many more, some long, some not plain ASCII.
pub fn option_name(i: u8) -> &'static str {
    static MORE: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let more = || {
        (0..=255usize)
            .map(|i| match i % 5 {
                0 => format!("o{}", i / 5),
                1 => format!("some_option_{}", i / 5),
                2 => format!("{}_{}", "an_option_with_a_name_of_many_words".repeat(1 + i % 3), i / 5 % 6),
                3 => format!("gr\u{f6}\u{df}e{}", "r".repeat(i % 4)),
                _ => format!("o{}{}", i / 5, "x".repeat(i % 40)),
            })
            .map(|s| &*s.leak())
            .collect()
    };
    POOL.get(i as usize).copied().unwrap_or_else(|| MORE.get_or_init(more)[i as usize])
}

/// Tables of few options, or now and then of many. Options are accessible with
/// this probability.
pub fn own_table(ty: BoxedStrategy<Ty>, accessible: f64, at_least: usize) -> BoxedStrategy<Vec<(u8, Ty, bool)>> {
    let acc = move || proptest::bool::weighted(accessible);
    prop_oneof![
        40 => vec((0u8..14, ty.clone(), acc()), at_least..6),
        1 => vec((prop_oneof![1 => 0u8..14, 2 => any::<u8>()], ty.clone(), acc()), 1..6),
        1 => vec((any::<u8>(), ty, acc()), 6..50),
    ]
    .boxed()
}

/// A caller's sampler with any table of options; some cannot be accessed.
#[derive(Debug, Clone)]
pub struct Own<UI, FL> {
    pub table: Vec<(&'static str, Ty, bool)>,
    pub u: Vec<UI>,
    pub f: Vec<FL>,
    pub b: Vec<bool>,
    pub s: Vec<Cow<'static, str>>,
    pub picky: bool,
}

impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> Own<UI, FL> {
    pub fn new(table: Vec<(&'static str, Ty, bool)>) -> Self {
        let n = table.len();
        Self {
            u: (0..n).map(|i| UI::from_usize(i).unwrap_or_else(|| panic!("number type"))).collect(),
            f: (0..n).map(|i| FL::from_f64(i as f64 + 0.5).unwrap_or_else(|| panic!("number type"))).collect(),
            b: (0..n).map(|i| i % 2 == 0).collect(),
            s: (0..n).map(|i| Cow::from(format!("s{i}"))).collect(),
            table,
            picky: false,
        }
    }
    fn md(&self) -> Vec<SamplerOptionMetadata> {
        self.table
            .iter()
            .map(|(key, t, _)| SamplerOptionMetadata { key, description: None, option_type: option_type(*t) })
            .collect()
    }
}

impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> HasSamplerMetadata<UI, FL> for Own<UI, FL> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "own", description: None, options: self.md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, FL>> {
        let acc: Vec<_> = self
            .table
            .iter()
            .enumerate()
            .map(|(i, (_, t, ok))| {
                ok.then(|| match t {
                    Ty::U => SamplerOptionValue::UInt(self.u[i]),
                    Ty::F => SamplerOptionValue::Float(self.f[i]),
                    Ty::B => SamplerOptionValue::Bool(self.b[i]),
                    Ty::S => SamplerOptionValue::String(Cow::Borrowed(&*self.s[i])),
                })
            })
            .collect();
        SamplerOptions::from(self.md().into_iter().zip(acc))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, FL>> {
        let md = self.md();
        let (mut u, mut f, mut b, mut s) = (self.u.iter_mut(), self.f.iter_mut(), self.b.iter_mut(), self.s.iter_mut());
        let acc: Vec<_> = self
            .table
            .iter()
            .map(|(_, t, ok)| {
                let (u, f, b, s) = (u.next(), f.next(), b.next(), s.next());
                match (t, ok) {
                    (_, false) => None,
                    (Ty::U, _) => u.map(SamplerOptionValueMut::UInt),
                    (Ty::F, _) => f.map(SamplerOptionValueMut::Float),
                    (Ty::B, _) => b.map(SamplerOptionValueMut::Bool),
                    (Ty::S, _) => s.map(SamplerOptionValueMut::String),
                }
            })
            .collect();
        SamplerOptions::from(md.into_iter().zip(acc))
    }
}
impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> ConfigurableSampler<UI, FL> for Own<UI, FL> {
    /// Refuses the text `no` and the number 77 with an error of its own.
    fn pre_set_option(&mut self, _md: &SamplerOptionMetadata, val: &mut SamplerOptionValue<'_>) -> anyhow::Result<()> {
        match val {
            SamplerOptionValue::UInt(77) if self.picky => Err(OwnError(77).into()),
            SamplerOptionValue::String(s) if self.picky && s == "no" => Err(OwnError(1).into()),
            _ => Ok(()),
        }
    }
}

/// The number types a caller may choose.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Nums {
    U8F32,
    U16F64,
    U32F32,
    U64F64,
    UsizeF32,
}

impl Nums {
    pub fn umax(self) -> u64 {
        match self {
            Nums::U8F32 => u8::MAX as u64,
            Nums::U16F64 => u16::MAX as u64,
            Nums::U32F32 => u32::MAX as u64,
            _ => u64::MAX,
        }
    }
    pub fn f64(self) -> bool {
        matches!(self, Nums::U16F64 | Nums::U64F64)
    }
    pub fn own(self, table: Vec<(&'static str, Ty, bool)>) -> Box<dyn Obj> {
        self.own_with(table, false)
    }
    pub fn own_with(self, table: Vec<(&'static str, Ty, bool)>, picky: bool) -> Box<dyn Obj> {
        fn h<UI: ConfigurableNumValue, FL: ConfigurableNumValue>(t: Vec<(&'static str, Ty, bool)>, picky: bool) -> Box<dyn Obj> {
            Box::new(Holder::<Own<UI, FL>, UI, FL>(Box::new(Own { picky, ..Own::new(t) }), PhantomData))
        }
        match self {
            Nums::U8F32 => h::<u8, f32>(table, picky),
            Nums::U16F64 => h::<u16, f64>(table, picky),
            Nums::U32F32 => h::<u32, f32>(table, picky),
            Nums::U64F64 => h::<u64, f64>(table, picky),
            Nums::UsizeF32 => h::<usize, f32>(table, picky),
        }
    }
}

/// What is configured.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Target {
    BuiltIn(Which),
    /// Built with these values first.
    Built(Which, Vec<V>),
    /// (index into POOL, type, accessible)
    Own(Nums, Vec<(u8, Ty, bool)>),
}

impl Target {
    pub fn table(&self) -> Vec<(&'static str, Ty, bool)> {
        match self {
            Target::BuiltIn(w) | Target::Built(w, _) => documented(*w).iter().map(|(k, t)| (*k, *t, true)).collect(),
            Target::Own(_, v) => {
                let mut seen = std::collections::HashSet::new();
                v.iter()
                    .map(|(i, t, ok)| (option_name(*i), *t, *ok))
                    .filter(|x| seen.insert(x.0))
                    .collect()
            }
        }
    }
    pub fn nums(&self) -> Nums {
        match self {
            Target::Own(n, _) => *n,
            _ => Nums::UsizeF32,
        }
    }
    pub fn which(&self) -> Option<Which> {
        match self {
            Target::BuiltIn(w) | Target::Built(w, _) => Some(*w),
            _ => None,
        }
    }
    pub fn obj(&self) -> Box<dyn Obj> {
        fn b(x: Buildable) -> Box<dyn Obj> {
            Box::new(Holder::<dyn BuildableSampler<usize, f32>, usize, f32>(x, PhantomData))
        }
        match self {
            Target::BuiltIn(w) => b(fresh(*w)),
            Target::Built(w, v) => b(build_with(*w, v, false)),
            Target::Own(n, _) => n.own(self.table()),
        }
    }
}

// ------------------------------------------------------------- the model

#[derive(Clone, Debug)]
pub struct Model {
    pub table: Vec<(&'static str, Ty, bool)>,
    pub vals: Vec<Option<V>>,
    pub nums: Nums,
    pub miro: bool,
}

/// What setting may do.
#[derive(Clone, Debug, PartialEq)]
pub enum Allowed {
    Fails,
    Sets(usize, V),
    /// Too large for the float type: becoming infinite or failing are both fine.
    Either(usize, V),
}

impl Model {
    /// Starts from what the object says, for the accessible options.
    pub fn read(t: &Target, o: &dyn Obj) -> Result<Self, String> {
        let table = t.table();
        let vals = table
            .iter()
            .map(|(k, ty, ok)| match (o.get(k), ok) {
                (Ok(v), true) => {
                    if v.ty() == *ty {
                        Ok(Some(v))
                    } else {
                        Err(format!("option {k} reads {v:?}, a wrong type"))
                    }
                }
                (Err(_), false) => Ok(None),
                (r, _) => Err(format!("reading option {k}: {r:?}")),
            })
            .collect::<Result<Vec<_>, _>>()?;
        Ok(Self { table, vals, nums: t.nums(), miro: matches!(t.which(), Some(Which::Miro1 | Which::Miro2)) })
    }

    /// The option a name stands for: exact, or the only one it is a prefix of.
    pub fn find(&self, key: &str) -> Option<usize> {
        let key = key.trim();
        if let Some(i) = self.table.iter().position(|t| t.0 == key) {
            return Some(i);
        }
        let mut it = (0..self.table.len()).filter(|i| self.table[*i].0.starts_with(key));
        match (it.next(), it.next()) {
            (Some(i), None) => Some(i),
            _ => None,
        }
    }

    pub fn may_set(&self, key: &str, v: &V) -> Allowed {
        let Some(i) = self.find(key) else {
            return Allowed::Fails;
        };
        let (_, ty, ok) = self.table[i];
        if !ok || v.ty() != ty {
            return Allowed::Fails;
        }
        match v {
            V::U(u) if *u > self.nums.umax() => Allowed::Fails,
            V::F(d) if !self.nums.f64() => {
                let x = d.0 as f32;
                if x.is_infinite() && d.0.is_finite() {
                    Allowed::Either(i, V::F(D(x as f64)))
                } else {
                    Allowed::Sets(i, V::F(D(x as f64)))
                }
            }
            _ => Allowed::Sets(i, v.clone()),
        }
    }

    pub fn put(&mut self, i: usize, v: V) {
        if self.miro && self.table[i].0 == "tau" {
            if let (V::F(d), Some(mu)) = (&v, self.table.iter().position(|t| t.0 == "mu")) {
                self.vals[mu] = Some(V::F(D((d.0 as f32 * 2.0) as f64)));
            }
        }
        self.vals[i] = Some(v);
    }

    /// Every option reads as the model says.
    pub fn agrees(&self, o: &dyn Obj) -> Result<(), String> {
        for (i, (k, _, ok)) in self.table.iter().enumerate() {
            let got = o.get(k);
            if !ok {
                if let Ok(v) = got {
                    return Err(format!("inaccessible option {k} reads {v:?}"));
                }
                continue;
            }
            match (&got, &self.vals[i]) {
                (Ok(g), Some(w)) if g == w => (),
                (g, w) => return Err(format!("option {k} reads {g:?}, should be {w:?}")),
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------- generators

pub fn any_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        5 => 0u64..200,
        2 => 0u64..100_000,
        1 => any::<u64>(),
        2 => select(vec![0u64, 1, 2, 127, 128, 254, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537,
            u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
        1 => dict::ints(0, u64::MAX),
    ]
    .boxed()
}

pub fn any_f64() -> BoxedStrategy<D> {
    prop_oneof![
        4 => (-10.0f64..10.0).prop_map(D),
        2 => (-40i32..40).prop_map(|i| D(i as f64 * 0.25)),
        2 => any::<f32>().prop_map(|f| D(f as f64)),
        1 => any::<u64>().prop_map(|b| D(f64::from_bits(b))),
        2 => select(vec![0.0f64, -0.0, 1.0, 0.1, 1.0 / 3.0, 1e-300, 1e300, -1e300, 3.5e38, -3.5e38, f64::MAX, f64::MIN_POSITIVE,
            f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 16777217.0, 1e-46]).prop_map(D),
        1 => dict::floats(f32::MIN, f32::MAX).prop_map(|f| D(f.0 as f64)),
    ]
    .boxed()
}

/// Hundreds to thousands of characters, without blanks.
pub fn long_text() -> BoxedStrategy<String> {
    let len = prop_oneof![4 => 60usize..300, 2 => 300usize..3000, 1 => select(vec![127usize, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096])];
    let len = prop_oneof![4 => len, 1 => dict::sizes(60, 70_000).prop_map(|n| n as usize)];
    ("[a-z0-9_é☃.]{1,7}", len).prop_map(|(s, n)| s.chars().cycle().take(n).collect()).boxed()
}

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        150 => "[a-z0-9_.]{0,8}",
        50 => "[ -~]{0,10}",
        50 => "\\PC{0,6}",
        50 => dict::texts(),
        1 => long_text(),
    ]
    .boxed()
}

pub fn value() -> BoxedStrategy<V> {
    prop_oneof![
        4 => any_u64().prop_map(V::U),
        4 => any_f64().prop_map(V::F),
        1 => any::<bool>().prop_map(V::B),
        1 => text().prop_map(V::S),
    ]
    .boxed()
}

/// Values for all options of a built-in sampler, moderate ones mostly.
pub fn values_for(w: Which) -> BoxedStrategy<Vec<V>> {
    documented(w)
        .iter()
        .map(|(_, t)| match t {
            Ty::U => prop_oneof![10 => 0u64..12, 2 => 0u64..400, 1 => dict::ints(0, 100_000)].prop_map(V::U).boxed(),
            _ => prop_oneof![6 => 0.0f32..2.0, 2 => -2.0f32..8.0, 1 => dict::floats(-2.0, 8.0).prop_map(|f| f.0)].prop_map(|f| V::F(D(f as f64))).boxed(),
        })
        .collect::<Vec<_>>()
        .boxed()
}

pub fn target() -> BoxedStrategy<Target> {
    let ty = || prop_oneof![3 => Just(Ty::U), 3 => Just(Ty::F), 2 => Just(Ty::B), 2 => Just(Ty::S)];
    let nums = prop_oneof![Just(Nums::U8F32), Just(Nums::U16F64), Just(Nums::U32F32), Just(Nums::U64F64), Just(Nums::UsizeF32)];
    prop_oneof![
        4 => which().prop_map(Target::BuiltIn),
        2 => which().prop_flat_map(|w| values_for(w).prop_map(move |v| Target::Built(w, v))),
        3 => (nums, own_table(ty().boxed(), 0.9, 0)).prop_map(|(n, t)| Target::Own(n, t)),
    ]
    .boxed()
}

/// A name for an option: chosen from the table, shortened, padded, or not a name at all.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Key {
    Nth { i: u8, cut: u8, left: u8, right: u8 },
    Wild(String),
}

pub const BLANKS: [&str; 10] = ["", " ", "  ", "\t", " \n", "\r\n ", "\u{b}", "\u{a0}", " \u{3000}", LONG_BLANK];
const LONG_BLANK: &str = "                                   \n                                   \t                                                                            ";

/// Blanks by number; most numbers are ordinary ones.
pub fn blank(i: u8) -> &'static str {
    BLANKS[i as usize % BLANKS.len()]
}

impl Key {
    pub fn text(&self, table: &[(&'static str, Ty, bool)]) -> String {
        match self {
            Key::Wild(s) => s.clone(),
            Key::Nth { .. } if table.is_empty() => "k".into(),
            Key::Nth { i, cut, left, right } => {
                let k = table[*i as usize % table.len()].0;
                // cut 0: whole; otherwise the first few characters.
                let n = if *cut == 0 { k.len() } else { (*cut as usize - 1).min(k.len()) };
                let n = (0..=n).rev().find(|n| k.is_char_boundary(*n)).unwrap_or(0);
                format!("{}{}{}", self::blank(*left), &k[..n], self::blank(*right))
            }
        }
    }
}

/// Which of a table's options.
pub fn nth() -> BoxedStrategy<u8> {
    prop_oneof![5 => 0u8..8, 1 => any::<u8>()].boxed()
}

pub fn key() -> BoxedStrategy<Key> {
    let blank = || prop_oneof![24 => Just(0u8), 5 => 0u8..6, 1 => 6u8..10];
    prop_oneof![
        6 => (nth(), prop_oneof![10 => Just(0u8), 9 => 1u8..10, 1 => 8u8..120], blank(), blank())
            .prop_map(|(i, cut, left, right)| Key::Nth { i, cut, left, right }),
        1 => text().prop_map(Key::Wild),
        1 => select(vec!["", " ", "kk", "min_keeper", "P", "Last_n", "penalty_", "mu2", "tau ", "m_", "a0", "min keep"]).prop_map(|s| Key::Wild(s.into())),
    ]
    .boxed()
}

/// A plain value for setting up behaviour comparisons.
pub fn f32_of(v: &V) -> Option<F> {
    match v {
        V::F(d) => Some(F(d.0 as f32)),
        _ => None,
    }
}

// ------------------------------------------------------------- value texts

/// What a text denotes as a value of a type.
#[derive(Clone, Debug, PartialEq)]
pub enum Denotes {
    Is(V),
    Nothing,
    /// Not settled by the documentation: refusing it is fine, and so is this
    /// value (None: any value of the type).
    Maybe(Option<V>),
}

/// Without the Unicode white space at its ends.
fn bare(s: &str) -> &str {
    s.trim_matches(char::is_whitespace)
}

/// `[+-]? (digits [. digits?] | . digits) ([eE] [+-]? digits)?`
fn decimal(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = usize::from(matches!(b.first(), Some(b'+' | b'-')));
    let digits = |i: &mut usize| {
        let from = *i;
        while b.get(*i).is_some_and(u8::is_ascii_digit) {
            *i += 1;
        }
        *i - from
    };
    let whole = digits(&mut i);
    let mut frac = 0;
    if b.get(i) == Some(&b'.') {
        i += 1;
        frac = digits(&mut i);
    }
    if whole + frac == 0 {
        return false;
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

pub fn denotes(t: Ty, s: &str) -> Denotes {
    use Denotes::*;
    let s = bare(s);
    match t {
        Ty::S => Is(V::S(s.to_string())),
        Ty::B => match s {
            "true" | "t" | "yes" | "1" => Is(V::B(true)),
            "false" | "f" | "no" | "0" => Is(V::B(false)),
            other => match other.to_ascii_lowercase().as_str() {
                "true" | "t" | "yes" | "y" | "on" => Maybe(Some(V::B(true))),
                "false" | "f" | "no" | "n" | "off" => Maybe(Some(V::B(false))),
                _ => Nothing,
            },
        },
        Ty::U => {
            let (plus, d) = match s.strip_prefix('+') {
                Some(d) => (true, d),
                None => (false, s),
            };
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return Nothing;
            }
            let v = d.bytes().try_fold(0u64, |v, b| v.checked_mul(10)?.checked_add((b - b'0') as u64));
            match (v, plus) {
                (None, _) => Nothing,
                (Some(v), false) => Is(V::U(v)),
                (Some(v), true) => Maybe(Some(V::U(v))),
            }
        }
        Ty::F => match s {
            "inf" | "+inf" => Is(V::F(D(f64::INFINITY))),
            "-inf" => Is(V::F(D(f64::NEG_INFINITY))),
            s if decimal(s) => match s.parse::<f64>() {
                Ok(v) => Is(V::F(D(v))),
                Err(_) => Maybe(None),
            },
            other => match other.to_ascii_lowercase().as_str() {
                "inf" | "+inf" | "infinity" | "+infinity" => Maybe(Some(V::F(D(f64::INFINITY)))),
                "-inf" | "-infinity" => Maybe(Some(V::F(D(f64::NEG_INFINITY)))),
                "nan" | "+nan" | "-nan" => Maybe(Some(V::F(D(f64::NAN)))),
                _ => Nothing,
            },
        },
    }
}

/// Texts that denote a value of the type, in the ways people write them.
pub fn good_text(t: Ty) -> BoxedStrategy<String> {
    match t {
        Ty::U => prop_oneof![
            4 => any_u64().prop_map(|u| u.to_string()),
            1 => (any_u64(), prop_oneof![4 => 1usize..4, 1 => 1usize..60]).prop_map(|(u, z)| format!("{}{u}", "0".repeat(z))),
        ]
        .boxed(),
        Ty::F => prop_oneof![
            3 => any_f64().prop_filter("number", |d| !d.0.is_nan()).prop_map(|d| format!("{:?}", d.0)),
            2 => any_f64().prop_filter("finite", |d| d.0.is_finite()).prop_map(|d| format!("{}", d.0)),
            1 => any_f64().prop_filter("finite", |d| d.0.is_finite()).prop_map(|d| format!("{:e}", d.0)),
            1 => any_f64().prop_filter("finite", |d| d.0.is_finite()).prop_map(|d| format!("{:.3}", d.0.clamp(-1e6, 1e6))),
            1 => "[+-]?[0-9]{1,25}(\\.[0-9]{0,25})?([eE][+-]?[0-9]{1,3})?",
            1 => "[+-]?\\.[0-9]{1,5}",
            // Many digits, most of them insignificant.
            1 => ("[+-]?[0-9]{0,3}", "[0-9]", prop_oneof![4 => 20usize..70, 1 => 70usize..500], "[0-9]{0,4}", any::<bool>(), -400i32..400)
                .prop_map(|(a, z, n, b, dot, e)| format!("{a}{}{}{b}e{e}", if dot { "." } else { "" }, z.repeat(n))),
            2 => select(vec!["inf", "+inf", "-inf", "1", "0", "-0", "1e5", "1E-3", ".5", "5.", "+2.5"]).prop_map(String::from),
        ]
        .boxed(),
        Ty::B => select(vec!["true", "t", "yes", "1", "false", "f", "no", "0"]).prop_map(String::from).boxed(),
        Ty::S => prop_oneof![
            20 => "[a-zA-Z0-9_.,;/-]{0,10}",
            20 => "[a-z]{1,4} [a-z]{1,4}",
            20 => "[a-z]{0,3}=[a-z=]{0,4}",
            20 => "[^:=\\p{C}\\p{Z}]{0,5}",
            20 => "[a-zA-Z0-9_]{10,90}",
            1 => long_text(),
        ]
        .boxed(),
    }
}

/// Texts close to values that denote none, and anything else.
pub fn bad_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec![
            "", "-1", "-0", "+5", "1.5", "1e3", "0x10", "1_000", "1,5", "18446744073709551616", "99999999999999999999", "--1",
            "+-1", "1 2", "truee", "tru", "True", "TRUE", "yess", "y", "n", "2", "10", "00", "01", "on", "off", "nan", "NaN", "infinity",
            "Inf", "INF", "-INF", "+INF", "- inf", "in f", "infi", "in", "e5", "1e", "1e+", ".", "-", "+", "1.2.3", "٣", "１", "1f", "0.5f32",
            "5u32", "t rue", "\"true\"", "'1'", "1\0", "½", "1e5.5", ".e1", "1٫5", "−1", "+", "∞", "null", "none"
        ]).prop_map(String::from),
        2 => "[0-9eE.+-]{0,8}",
        2 => "[a-z0-9]{0,8}",
        1 => "\\PC{0,8}",
        1 => any::<String>(),
        1 => dict::texts(),
        1 => (dict::texts(), any::<u16>(), any::<char>()).prop_map(|(s, at, c)| {
            let mut v: Vec<char> = s.chars().collect();
            if !v.is_empty() {
                let at = at as usize % v.len();
                v[at] = if v[at].is_lowercase() { v[at].to_ascii_uppercase() } else { c };
            }
            v.into_iter().collect()
        }),
        1 => (good_text(Ty::F), any::<u16>(), any::<char>()).prop_map(|(mut s, at, c)| {
            let at = at as usize % (s.len() + 1);
            if s.is_char_boundary(at) { s.insert(at, c); }
            s
        }),
        1 => (good_text(Ty::U), any::<u16>(), select(vec!['-', '+', ' ', '.', '_', 'e', 'a', ','])).prop_map(|(mut s, at, c)| {
            let at = at as usize % (s.len() + 1);
            s.insert(at, c);
            s
        }),
    ]
    .boxed()
}
