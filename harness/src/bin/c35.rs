//! C35: a refused configuration says what was refused and why.
use std::marker::PhantomData;

use harness::{opts::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum T {
    BuiltIn(Which),
    /// Table; whether some values are refused by the sampler itself.
    Own(Nums, Vec<(u8, Ty, bool)>, bool),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Set(Key, V),
    /// Usually the right type.
    Typed(Key, u64, D, bool, String),
    Get(Key),
    /// (key if any, text)
    Configure(Vec<(Option<Key>, String, u8)>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Slot {
    Static,
    Single,
    Filled,
    Chain,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Case {
    Direct { t: T, ops: Vec<Op> },
    Builder { t: T, slots: Vec<(u8, Slot)>, calls: Vec<(u8, Vec<(Option<Key>, String, u8)>)> },
}

type Table = Vec<(&'static str, Ty, bool)>;

impl T {
    fn table(&self) -> Table {
        match self {
            T::BuiltIn(w) => Target::BuiltIn(*w).table(),
            T::Own(n, v, _) => Target::Own(*n, v.clone()).table(),
        }
    }
    fn obj(&self) -> Box<dyn Obj> {
        match self {
            T::BuiltIn(w) => Target::BuiltIn(*w).obj(),
            T::Own(n, _, picky) => n.own_with(self.table(), *picky),
        }
    }
    fn umax(&self) -> u64 {
        match self {
            T::Own(n, ..) => n.umax(),
            _ => u64::MAX,
        }
    }
    fn f64(&self) -> bool {
        matches!(self, T::Own(n, ..) if n.f64())
    }
    fn picky(&self) -> bool {
        matches!(self, T::Own(_, _, true))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Unknown,
    Ambiguous,
    NoAccess,
    NoFit,
    Own(u32),
}

/// What a request leads to.
#[derive(Debug, Clone, PartialEq)]
enum Expect {
    Fine,
    /// One of these, naming the key as asked for or the option it stands for.
    Refused(Vec<Kind>, String, Option<&'static str>),
    /// Some error (a malformed value).
    SomeError,
    Unsettled,
}

fn lookup(table: &Table, key: &str) -> Result<usize, Expect> {
    let key = key.trim();
    if let Some(i) = table.iter().position(|t| t.0 == key) {
        return Ok(i);
    }
    let fits: Vec<usize> = (0..table.len()).filter(|i| table[*i].0.starts_with(key)).collect();
    match fits[..] {
        [i] => Ok(i),
        [] => Err(Expect::Refused(vec![Kind::Unknown], key.into(), None)),
        _ => Err(Expect::Refused(vec![Kind::Ambiguous], key.into(), None)),
    }
}

fn expect_set(t: &T, table: &Table, key: &str, v: &V) -> Expect {
    let i = match lookup(table, key) {
        Ok(i) => i,
        Err(e) => return e,
    };
    let (name, ty, ok) = table[i];
    let refused = |k| Expect::Refused(k, key.trim().into(), Some(name));
    let fits_type = v.ty() == ty;
    if !ok {
        return refused(if fits_type { vec![Kind::NoAccess] } else { vec![Kind::NoAccess, Kind::Unknown] });
    }
    let mut kinds = vec![];
    if !fits_type {
        kinds.push(Kind::Unknown);
    } else if matches!(v, V::U(u) if *u > t.umax()) {
        kinds.push(Kind::NoFit);
    }
    // The sampler's own hook may come first.
    match v {
        V::U(77) if t.picky() => kinds.push(Kind::Own(77)),
        V::S(s) if t.picky() && s == "no" => kinds.push(Kind::Own(1)),
        _ => (),
    }
    if !kinds.is_empty() {
        return refused(kinds);
    }
    match v {
        V::F(d) if !t.f64() && d.0.is_finite() && (d.0 as f32).is_infinite() => Expect::Unsettled,
        _ => Expect::Fine,
    }
}

fn expect_configure(t: &T, table: &Table, s: &str) -> Expect {
    for part in s.split(':') {
        if part.trim().is_empty() {
            continue;
        }
        let (k, v) = part.split_once('=').unwrap_or(("", part));
        let i = match lookup(table, k) {
            Ok(i) => i,
            Err(e) => return e,
        };
        let (name, ty, ok) = table[i];
        let d = denotes(ty, v);
        if !ok {
            let e = Expect::Refused(vec![Kind::Unknown, Kind::NoAccess], k.trim().into(), Some(name));
            return if matches!(d, Denotes::Is(_)) { e } else { Expect::SomeError };
        }
        match d {
            Denotes::Nothing => return Expect::SomeError,
            Denotes::Maybe(_) => return Expect::Unsettled,
            Denotes::Is(v) => match expect_set(t, table, name, &v) {
                Expect::Fine => (),
                Expect::Refused(kinds, _, name) => return Expect::Refused(kinds, k.trim().into(), name),
                other => return other,
            },
        }
    }
    Expect::Fine
}

fn compare(got: &Result<(), Refusal>, want: &Expect, cov: &mut Cov) -> Outcome {
    match (got, want) {
        (_, Expect::Unsettled) | (Ok(()), Expect::Fine) | (Err(_), Expect::SomeError) => Ok(()),
        (Err(r), Expect::Refused(kinds, asked, name)) => {
            let (kind, named, label) = match &r.why {
                Why::Option(ConfigureSamplerError::UnknownOrBadType(k)) => (Kind::Unknown, Some(k), "unknown or bad type"),
                Why::Option(ConfigureSamplerError::AmbiguousKey(k)) => (Kind::Ambiguous, Some(k), "ambiguous"),
                Why::Option(ConfigureSamplerError::ConversionFailure(k)) => (Kind::NoFit, Some(k), "does not fit"),
                Why::Option(ConfigureSamplerError::CannotAccessOptionValue(k)) => (Kind::NoAccess, Some(k), "no access"),
                Why::Own(n) => (Kind::Own(*n), None, "refused by the sampler"),
                other => return Err(format!("refused with {other:?} ({}), expected one of {kinds:?}", r.text)),
            };
            ensure!(kinds.contains(&kind), "refused as {kind:?} ({}), expected one of {kinds:?}", r.text);
            if let (Some(k), false) = (named, asked.is_empty()) {
                ensure!(
                    k.trim() == asked || Some(k.as_str()) == *name,
                    "the error names {k:?}, asked for was {asked:?} (option {name:?})"
                );
                ensure!(r.text.contains(k.as_str()), "the text {:?} does not mention {k:?}", r.text);
            }
            if let Kind::Own(n) = kind {
                ensure!(r.text.contains(&format!("own error {n}")), "the sampler's error reads {:?}", r.text);
            }
            cov.label(label);
            Ok(())
        }
        _ => Err(format!("{got:?}, expected {want:?}")),
    }
}

fn string(table: &Table, parts: &[(Option<Key>, String, u8)]) -> String {
    parts
        .iter()
        .map(|(k, v, b)| match k {
            Some(k) => format!("{}={}{v}", k.text(table), blank(*b)),
            None => v.clone(),
        })
        .collect::<Vec<_>>()
        .join(":")
}

fn direct(t: &T, ops: &[Op], cov: &mut Cov) -> Outcome {
    let table = t.table();
    let mut o = t.obj();
    let mut refused = 0;
    for (n, op) in ops.iter().enumerate() {
        let (what, got, want) = match op {
            Op::Set(k, v) => {
                let k = k.text(&table);
                (format!("setting {k:?} to {v:?}"), o.try_set(&k, v), expect_set(t, &table, &k, v))
            }
            Op::Typed(k, u, d, b, s) => {
                let k = k.text(&table);
                let v = match lookup(&table, &k).map(|i| table[i].1) {
                    Ok(Ty::F) => V::F(*d),
                    Ok(Ty::B) => V::B(*b),
                    Ok(Ty::S) => V::S(s.clone()),
                    _ => V::U(*u),
                };
                (format!("setting {k:?} to {v:?}"), o.try_set(&k, &v), expect_set(t, &table, &k, &v))
            }
            Op::Get(k) => {
                let k = k.text(&table);
                let want = match lookup(&table, &k) {
                    Err(e) => e,
                    Ok(i) if !table[i].2 => Expect::Refused(vec![Kind::NoAccess], k.trim().into(), Some(table[i].0)),
                    Ok(_) => Expect::Fine,
                };
                (format!("reading {k:?}"), o.try_get(&k), want)
            }
            Op::Configure(parts) => {
                let s = string(&table, parts);
                (format!("configuring {s:?}"), o.try_configure(&s), expect_configure(t, &table, &s))
            }
        };
        compare(&got, &want, cov).map_err(|e| format!("step {n}: {what} of {table:?}: {e}"))?;
        refused += usize::from(matches!(want, Expect::Refused(..)));
    }
    cov.nontrivial_if(refused > 0 && table.len() > 1);
    Ok(())
}

/// Makes a caller's option table a sampler, for slots.
#[derive(Debug, Clone)]
struct Inert<UI, FL>(Own<UI, FL>, PhantomData<(UI, FL)>);

impl<UI, FL> Sampler for Inert<UI, FL>
where
    UI: ConfigurableNumValue + Send + Sync + std::fmt::Debug,
    FL: ConfigurableNumValue + Send + Sync + std::fmt::Debug,
{
    fn sample<'a>(&mut self, _res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(logits)
    }
}
impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> HasSamplerMetadata<UI, FL> for Inert<UI, FL> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        self.0.sampler_metadata()
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, FL>> {
        self.0.sampler_options()
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, FL>> {
        self.0.sampler_options_mut()
    }
}
impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> ConfigurableSampler<UI, FL> for Inert<UI, FL> {
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue<'_>) -> anyhow::Result<()> {
        self.0.pre_set_option(md, val)
    }
}

const NAMES: [&str; 13] = ["temp", "top-k", "", "a b", "temperature", "Temp", " ", "temp ", "\ttop-k", "tem", "a:b=c", "\u{e9}t\u{e9}", "a slot with a name of many words, longer than sixty-four characters it is"];

type Calls = [(u8, Vec<(Option<Key>, String, u8)>)];

fn builder<UI: ConfigurableNumValue, FL: ConfigurableNumValue>(
    t: &T,
    make: impl Fn() -> Box<dyn BuildableSampler<UI, FL>> + Clone + 'static,
    slots: &[(u8, Slot)],
    calls: &Calls,
    cov: &mut Cov,
) -> Outcome {
    let table = t.table();
    let mut b = SamplerChainBuilder::<UI, FL>::default();
    let mut there: Vec<(&str, Slot)> = vec![];
    for (n, slot) in slots {
        let name = NAMES[*n as usize % NAMES.len()];
        if there.iter().any(|x| x.0 == name) {
            continue;
        }
        there.push((name, *slot));
        let f = make.clone();
        let s = match slot {
            Slot::Static => SamplerSlot::Static { factory: Box::new(f) },
            Slot::Single => SamplerSlot::Single { factory: Box::new(f), sampler: None },
            Slot::Filled => SamplerSlot::Single { sampler: Some(make()), factory: Box::new(f) },
            Slot::Chain => SamplerSlot::Chain { factory: Box::new(f), samplers: vec![] },
        };
        b.push_slot(name.to_string(), s);
    }
    let mut refused = 0;
    for (i, (n, parts)) in calls.iter().enumerate() {
        let name = match *n as usize {
            n if n < NAMES.len() || there.is_empty() => NAMES[n % NAMES.len()],
            n => there[n % there.len()].0,
        };
        let s = string(&table, parts);
        let got = b.configure(name, &s).map_err(|e| Refusal::of(&e));
        let ctx = |e: String| format!("call {i}: configuring slot {name:?} with {s:?} (options {table:?}): {e}");
        let slot = there.iter().find(|x| x.0 == name).map(|x| x.1);
        let inner = expect_configure(t, &table, &s);
        match slot {
            None | Some(Slot::Static) => {
                let Err(r) = &got else { return Err(ctx("accepted".into())) };
                let want = match slot {
                    None => Why::UnknownSlot(name.into()),
                    _ => Why::StaticSlot(name.into()),
                };
                ensure!(r.why == want, "{}", ctx(format!("refused with {:?} ({}), expected {want:?}", r.why, r.text)));
                ensure!(r.text.contains(name), "{}", ctx(format!("the text {:?} does not name the slot", r.text)));
                cov.label(if slot.is_none() { "unknown slot" } else { "static slot" });
                refused += 1;
            }
            Some(_) => {
                let unpacked = match &got {
                    Ok(()) => Ok(()),
                    Err(Refusal { why: Why::Failed(at, err), text }) => {
                        ensure!(at == name, "{}", ctx(format!("the error names slot {at:?}")));
                        ensure!(text.contains(name) && text.contains(&err.text), "{}", ctx(format!("the text {text:?} lacks the slot or {:?}", err.text)));
                        refused += 1;
                        Err((**err).clone())
                    }
                    Err(r) => return Err(ctx(format!("refused with {:?} ({}), expected a failed configuration", r.why, r.text))),
                };
                compare(&unpacked, &inner, cov).map_err(ctx)?;
            }
        }
    }
    cov.nontrivial_if(refused > 0 && there.len() > 1);
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C35";
    const RULE: &'static str = "Up to 10 set, get and configure requests (full names, prefixes, wild names, wrong types, values that do not fit, inaccessible options, values the sampler's own hook refuses) on built-in samplers and callers' tables of 5 number type pairs, or up to 8 configure calls of a builder with up to 5 slots of every kind; the kind, the name carried and the text of every error against a model of the documented ones. Non-trivial: a refusal with more than one option or slot.";
    const QUICK: u64 = 50_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let ty = || prop_oneof![3 => Just(Ty::U), 3 => Just(Ty::F), 2 => Just(Ty::B), 2 => Just(Ty::S)];
        let nums = || prop_oneof![Just(Nums::U8F32), Just(Nums::U16F64), Just(Nums::U32F32), Just(Nums::U64F64), Just(Nums::UsizeF32)];
        let t = move || {
            prop_oneof![
                2 => which().prop_map(T::BuiltIn),
                3 => (nums(), own_table(ty().boxed(), 0.8, 0), proptest::bool::weighted(0.4))
                    .prop_map(|(n, t, p)| T::Own(n, t, p)),
            ]
        };
        let number = || prop_oneof![1 => Just(77u64), 6 => any_u64()];
        let word = || prop_oneof![1 => Just("no".to_string()), 3 => text()];
        let any_text = || prop_oneof![
            4 => any_u64().prop_map(|u| u.to_string()),
            2 => (-8.0f32..8.0).prop_map(|f| format!("{f}")),
            1 => Just("77".to_string()),
            1 => Just("no".to_string()),
            1 => Just("true".to_string()),
            1 => bad_text(),
        ];
        let parts = move || vec((prop_oneof![9 => key().prop_map(Some), 1 => Just(None)], any_text(), prop_oneof![4 => Just(0u8), 1 => 0u8..6]), 0..5);
        let op = prop_oneof![
            2 => (key(), value()).prop_map(|(k, v)| Op::Set(k, v)),
            4 => (key(), number(), any_f64(), any::<bool>(), word()).prop_map(|(k, u, d, b, s)| Op::Typed(k, u, d, b, s)),
            2 => key().prop_map(Op::Get),
            3 => parts().prop_map(Op::Configure),
        ];
        let slot = prop_oneof![Just(Slot::Static), Just(Slot::Single), Just(Slot::Filled), Just(Slot::Chain)];
        prop_oneof![
            1 => (t(), gen::seq(op, 1..11, 11..40, 300)).prop_map(|(t, ops)| Case::Direct { t, ops }),
            1 => (t(), vec((0u8..13, slot), 0..6), vec((0u8..40, parts()), 1..9))
                .prop_map(|(t, slots, calls)| Case::Builder { t, slots, calls }),
        ]
        .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        match c {
            Case::Direct { t, ops } => direct(t, ops, cov),
            Case::Builder { t, slots, calls } => {
                fn own<UI, FL>(table: Table, picky: bool) -> impl Fn() -> Box<dyn BuildableSampler<UI, FL>> + Clone + 'static
                where
                    UI: ConfigurableNumValue + Send + Sync + std::fmt::Debug,
                    FL: ConfigurableNumValue + Send + Sync + std::fmt::Debug,
                {
                    move || Box::new(Inert(Own { picky, ..Own::new(table.clone()) }, PhantomData))
                }
                match t {
                    T::BuiltIn(w) => {
                        let w = *w;
                        builder(t, move || fresh(w), slots, calls, cov)
                    }
                    T::Own(n, _, p) => match n {
                        Nums::U8F32 => builder(t, own::<u8, f32>(t.table(), *p), slots, calls, cov),
                        Nums::U16F64 => builder(t, own::<u16, f64>(t.table(), *p), slots, calls, cov),
                        Nums::U32F32 => builder(t, own::<u32, f32>(t.table(), *p), slots, calls, cov),
                        Nums::U64F64 => builder(t, own::<u64, f64>(t.table(), *p), slots, calls, cov),
                        Nums::UsizeF32 => builder(t, own::<usize, f32>(t.table(), *p), slots, calls, cov),
                    },
                }
            }
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
