//! C29: a chain builder yields the configured samplers in slot order.
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc,
};

use harness::{custom::err_text, prelude::*};

/// A sampler that leaves a trace of who it is and how it is configured.
#[derive(Debug, Clone)]
struct Mark {
    factory: u32,
    serial: usize,
    knob: usize,
    level: f32,
    name: std::borrow::Cow<'static, str>,
    ran: usize,
}

impl Sampler for Mark {
    fn sample<'a>(&mut self, _res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.ran += 1;
        logits.push(Logit { token_id: self.factory, logit: self.serial as f32, prob: self.level });
        logits.push(Logit { token_id: self.knob as u32, logit: self.ran as f32, prob: self.name.len() as f32 });
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        Some(self.factory)
    }
}
impl HasSamplerMetadata<usize, f32> for Mark {
    fn sampler_metadata(&self) -> SamplerMetadata {
        let o = |key, option_type| SamplerOptionMetadata { key, description: None, option_type };
        SamplerMetadata {
            name: "mark",
            description: None,
            options: vec![o("knob", SamplerOptionType::UInt), o("level", SamplerOptionType::Float), o("name", SamplerOptionType::String)],
        }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        SamplerOptions::from(self.sampler_metadata().options.into_iter().zip([
            Some(SamplerOptionValue::UInt(self.knob)),
            Some(SamplerOptionValue::Float(self.level)),
            Some(SamplerOptionValue::String(self.name.clone())),
        ]))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let md = self.sampler_metadata().options;
        SamplerOptions::from(md.into_iter().zip([
            Some(SamplerOptionValueMut::UInt(&mut self.knob)),
            Some(SamplerOptionValueMut::Float(&mut self.level)),
            Some(SamplerOptionValueMut::String(&mut self.name)),
        ]))
    }
}
impl ConfigurableSampler<usize, f32> for Mark {}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Static,
    Single(Option<u16>),
    Chain(Vec<u16>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Conf {
    Knob(u16),
    Level(F),
    Name(u8),
    All(u16, F, u8),
    Nothing(u8),
    /// The knob with empty parts around it.
    Padded(u16, u8),
    Bad(u8),
}

const NOTHING: [&str; 7] = ["", " ", ":", " : ", "::", "\t", ": \n :"];
const BAD: [&str; 9] = ["zap=1", "knob=x", "=5", "5", "knob=-1", "level=", "k=18446744073709551616", "knob", "nam"];

impl Conf {
    fn text(&self) -> String {
        let s = |n: u8| "x".repeat(n as usize % 7);
        match self {
            Conf::Knob(k) => format!("knob={k}"),
            Conf::Level(l) => format!(" l = {} ", l.0),
            Conf::Name(n) => format!("name={}", s(*n)),
            Conf::All(k, l, n) => format!("name={}:level={}:kn={k}", s(*n), l.0),
            Conf::Nothing(i) => NOTHING[*i as usize % NOTHING.len()].into(),
            Conf::Padded(k, i) => format!("{0}:knob={k}:{0}", NOTHING[*i as usize % NOTHING.len()]),
            Conf::Bad(i) => BAD[*i as usize % BAD.len()].into(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Push(u8, Kind, u8),
    Configure(u8, Conf),
    Ensure(u8),
    EnsureAll,
    /// Through the slot list the builder gives access to.
    Remove(u8),
    Swap(u8, u8),
    /// What is in a slot is taken out (all of a chain, or its last sampler).
    Empty(u8, bool),
    /// Something is put into it.
    Put(u8, u16),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    start: Vec<(u8, Kind)>,
    ops: Vec<Op>,
    runs: u8,
}

const NAMES: [&str; 11] = ["temp", "temperature", "top-k", "", " ", "repetition", "rep", "Temp", "a b", "mirostat", "a slot with a name of many words, longer than sixty-four characters it is"];

/// The name with this number; the first are those above, nearly all of the others are different.
fn name_of(n: u8) -> &'static str {
    static MORE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let more = MORE.get_or_init(|| {
        (0..=255)
            .map(|n| match n % 4 {
                0 => format!("slot {n}"),
                1 => format!("slot{}", "-".repeat(n)),
                2 => format!("{n}: é☃={}", n * 7),
                _ => format!("s{n}"),
            })
            .collect()
    });
    NAMES.get(n as usize).copied().unwrap_or(&more[n as usize])
}

/// (factory, knob, level, name length); the trace of one sampler.
#[derive(Clone, Debug, PartialEq)]
struct Made {
    factory: u32,
    knob: usize,
    level: f32,
    name: usize,
}

enum MSlot {
    Static(Made),
    Single(Made, Option<Made>),
    Chain(Made, Vec<Made>),
}

type Builder = SamplerChainBuilder<usize, f32>;
type Slot = SamplerSlot<usize, f32>;
type Buildable = Box<dyn BuildableSampler<usize, f32>>;

struct World {
    factories: u32,
    serial: Arc<AtomicUsize>,
}

impl World {
    /// The factory with this number and what its samplers look like.
    fn factory(&mut self) -> (impl FnMut() -> Buildable + 'static, Made) {
        self.factories += 1;
        let n = self.factories;
        let serial = self.serial.clone();
        let made = Made { factory: n, knob: 100 + n as usize, level: n as f32 * 0.25, name: 3 };
        let f = move || -> Buildable {
            Box::new(Mark {
                factory: n,
                serial: serial.fetch_add(1, Ordering::SeqCst),
                knob: 100 + n as usize,
                level: n as f32 * 0.25,
                name: "abc".into(),
                ran: 0,
            })
        };
        (f, made)
    }
    fn given(&self, knob: u16) -> (Mark, Made) {
        let mark = Mark { factory: 9999, serial: self.serial.fetch_add(1, Ordering::SeqCst), knob: knob as usize, level: -1.0, name: "given".into(), ran: 0 };
        (mark, Made { factory: 9999, knob: knob as usize, level: -1.0, name: 5 })
    }
    fn slot(&mut self, k: &Kind) -> (Slot, MSlot) {
        let (f, made) = self.factory();
        match k {
            Kind::Static => (Slot::new_static(f), MSlot::Static(made)),
            Kind::Single(None) => (Slot::new_single(f, None::<Mark>), MSlot::Single(made, None)),
            Kind::Single(Some(knob)) => {
                let (mark, m) = self.given(*knob);
                (Slot::new_single(f, Some(mark)), MSlot::Single(made, Some(m)))
            }
            Kind::Chain(v) => {
                let (marks, ms): (Vec<Buildable>, Vec<Made>) = v
                    .iter()
                    .map(|k| {
                        let (mark, m) = self.given(*k);
                        (Box::new(mark) as Buildable, m)
                    })
                    .unzip();
                (Slot::new_chain(f, marks), MSlot::Chain(made, ms))
            }
        }
    }
}

fn apply(m: &mut Made, c: &Conf) {
    match c {
        Conf::Knob(k) | Conf::Padded(k, _) => m.knob = *k as usize,
        Conf::Level(l) => m.level = l.0,
        Conf::Name(n) => m.name = *n as usize % 7,
        Conf::All(k, l, n) => {
            (m.knob, m.level, m.name) = (*k as usize, l.0, *n as usize % 7);
        }
        Conf::Nothing(_) | Conf::Bad(_) => (),
    }
}

struct P;
impl Prop for P {
    const ID: &'static str = "C29";
    const RULE: &'static str = "Histories of up to 12 builder operations (new slots of every kind by every way, configure with good and bad strings, unknown and static slots, ensure-present, edits of the slot list and of slots) with samplers that leave a trace of identity and options, against a model of the slots; the built chain is run once or more. Non-trivial: a chain of three or more samplers, one of them configured.";
    const QUICK: u64 = 80_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let kind = || {
            prop_oneof![
                1 => Just(Kind::Static),
                2 => Just(Kind::Single(None)),
                1 => any::<u16>().prop_map(|k| Kind::Single(Some(k))),
                3 => gen::seq(any::<u16>(), 0..3, 3..400, 3000).prop_map(Kind::Chain),
            ]
        };
        let level = || (-40i32..40).prop_map(|i| F(i as f32 * 0.25));
        let conf = prop_oneof![
            2 => any::<u16>().prop_map(Conf::Knob),
            1 => level().prop_map(Conf::Level),
            1 => any::<u8>().prop_map(Conf::Name),
            2 => (any::<u16>(), level(), any::<u8>()).prop_map(|(k, l, n)| Conf::All(k, l, n)),
            1 => any::<u8>().prop_map(Conf::Nothing),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(k, i)| Conf::Padded(k, i)),
            2 => any::<u8>().prop_map(Conf::Bad),
        ];
        let slot = || prop_oneof![3 => 0u8..11, 1 => any::<u8>()];
        let op = prop_oneof![
            3 => (slot(), kind(), 0u8..3).prop_map(|(n, k, how)| Op::Push(n, k, how)),
            6 => (prop_oneof![1 => 0u8..14, 6 => 14u8..40, 1 => 40u8..200, 1 => 200u8..], conf).prop_map(|(n, c)| Op::Configure(n, c)),
            2 => any::<u8>().prop_map(Op::Ensure),
            1 => Just(Op::EnsureAll),
            1 => any::<u8>().prop_map(Op::Remove),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Swap(a, b)),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Op::Empty(a, b)),
            1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::Put(a, b)),
        ];
        (gen::seq((slot(), kind()), 0..6, 6..120, 300), prop_oneof![4000 => gen::seq(op.clone(), 0..13, 13..80, 300), 1 => vec(op, 200..600)], 1u8..4)
            .prop_map(|(start, ops, runs)| Case { start, ops, runs })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut w = World { factories: 0, serial: Arc::new(AtomicUsize::new(0)) };
        let mut model: Vec<(&'static str, MSlot)> = vec![];
        let mut start = vec![];
        for (n, k) in &c.start {
            let name = name_of(*n);
            if !model.iter().any(|m| m.0 == name) {
                let (s, m) = w.slot(k);
                start.push((name, s));
                model.push((name, m));
            }
        }
        let mut b: Builder = if c.runs % 2 == 0 {
            Builder::from(start)
        } else {
            Builder::from(start.into_iter().map(|(n, s)| (n.to_string(), s)))
        };
        let mut configured = false;
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Push(n, k, how) => {
                    let name = name_of(*n);
                    // Which slot a name stands for is only clear when it is unique.
                    if model.iter().any(|m| m.0 == name) {
                        continue;
                    }
                    let (s, m) = w.slot(k);
                    match how {
                        0 => b.push_slot(name.to_string(), s),
                        1 => b += (name.to_string(), s),
                        _ => b = b + (name.to_string(), s),
                    }
                    model.push((name, m));
                }
                Op::Configure(n, conf) => {
                    // Mostly a slot there is.
                    let name = match *n as usize {
                        n if n < NAMES.len() => NAMES[n],
                        n if n < 14 || model.is_empty() => "no such slot",
                        n => model[(n - 14) % model.len()].0,
                    };
                    // Sometimes a name that only resembles it.
                    let near;
                    let name = match *n {
                        200.. => {
                            near = match n % 6 {
                                0 => format!("{name} "),
                                1 => format!("{name}x"),
                                2 => name.to_uppercase(),
                                3 => name.chars().take(name.chars().count().saturating_sub(1)).collect(),
                                4 => format!(" {name}"),
                                _ => name.trim().to_string(),
                            };
                            &near
                        }
                        _ => name,
                    };
                    let r = b.configure(name, conf.text());
                    let bad = matches!(conf, Conf::Bad(_));
                    let ok = match model.iter_mut().find(|m| m.0 == name).map(|m| &mut m.1) {
                        None => {
                            cov.label("unknown slot");
                            false
                        }
                        Some(MSlot::Static(_)) => {
                            cov.label("static slot");
                            false
                        }
                        Some(_) if bad => {
                            cov.label("bad string");
                            false
                        }
                        Some(MSlot::Single(made, cur)) => {
                            apply(cur.get_or_insert_with(|| made.clone()), conf);
                            true
                        }
                        Some(MSlot::Chain(made, v)) => {
                            let mut m = made.clone();
                            apply(&mut m, conf);
                            v.push(m);
                            true
                        }
                    };
                    ensure!(r.is_ok() == ok, "op {i}: configuring {name:?} with {:?}: {r:?}, expected {}", conf.text(), if ok { "success" } else { "an error" });
                    configured |= ok;
                }
                Op::Ensure(j) => {
                    if model.is_empty() {
                        continue;
                    }
                    let j = *j as usize % model.len();
                    b[j].1.ensure_present();
                    fill(&mut model[j].1);
                }
                Op::EnsureAll => {
                    b.iter_mut().for_each(|s| s.1.ensure_present());
                    model.iter_mut().for_each(|m| fill(&mut m.1));
                }
                Op::Remove(j) => {
                    if !model.is_empty() {
                        let j = *j as usize % model.len();
                        b.remove(j);
                        model.remove(j);
                    }
                }
                Op::Empty(j, all) => {
                    if model.is_empty() {
                        continue;
                    }
                    let j = *j as usize % model.len();
                    match (&mut b[j].1, &mut model[j].1) {
                        (Slot::Single { sampler, .. }, MSlot::Single(_, m)) => (*sampler, *m) = (None, None),
                        (Slot::Chain { samplers, .. }, MSlot::Chain(_, m)) => {
                            let n = if *all { 0 } else { m.len().saturating_sub(1) };
                            samplers.truncate(n);
                            m.truncate(n);
                        }
                        _ => (),
                    }
                }
                Op::Put(j, knob) => {
                    if model.is_empty() {
                        continue;
                    }
                    let j = *j as usize % model.len();
                    let (mark, made) = w.given(*knob);
                    match (&mut b[j].1, &mut model[j].1) {
                        (Slot::Single { sampler, .. }, MSlot::Single(_, m)) => {
                            *sampler = Some(Box::new(mark));
                            *m = Some(made);
                        }
                        (Slot::Chain { samplers, .. }, MSlot::Chain(_, m)) => {
                            samplers.insert(0, Box::new(mark));
                            m.insert(0, made);
                        }
                        _ => (),
                    }
                }
                Op::Swap(x, y) => {
                    if !model.is_empty() {
                        let (x, y) = (*x as usize % model.len(), *y as usize % model.len());
                        b.swap(x, y);
                        model.swap(x, y);
                    }
                }
            }
            let names: Vec<&str> = b.iter().map(|s| s.0.as_str()).collect();
            ensure!(names.iter().eq(model.iter().map(|m| &m.0)), "op {i}: slots are {names:?}");
            ensure!(!format!("{b:?}").is_empty(), "no debug output");
        }
        let slots = model.len();
        let want: Vec<Made> = model
            .into_iter()
            .flat_map(|(_, s)| match s {
                MSlot::Static(m) => vec![m],
                MSlot::Single(_, m) => m.into_iter().collect(),
                MSlot::Chain(_, v) => v,
            })
            .collect();
        let mut chain = b.into_chain();
        for run in 1..=c.runs as usize {
            let mut l = Logits::default();
            let t = chain.sample_token(&mut (), &mut l).map_err(|e| err_text(&e))?;
            ensure!(l.len() % 2 == 0, "odd trace");
            let mut serials = std::collections::HashSet::new();
            let got: Vec<Made> = l
                .chunks(2)
                .map(|p| Made { factory: p[0].token_id, knob: p[1].token_id as usize, level: p[0].prob, name: p[1].prob as usize })
                .collect();
            ensure!(got == want, "run {run}: the chain consists of {got:?}, expected {want:?}");
            for p in l.chunks(2) {
                ensure!(serials.insert(p[0].logit.to_bits()), "run {run}: a sampler occurs twice");
                ensure!(p[1].logit == run as f32, "run {run}: a sampler has run {} times", p[1].logit);
            }
            ensure!(t == want.last().map(|m| m.factory), "run {run}: reports {t:?}");
        }
        cov.label_if(slots > 16, "over 16 slots");
        cov.nontrivial_if(want.len() > 2 && configured);
        Ok(())
    }
}

fn fill(s: &mut MSlot) {
    match s {
        MSlot::Static(_) => (),
        MSlot::Single(made, cur) => {
            cur.get_or_insert_with(|| made.clone());
        }
        MSlot::Chain(made, v) => {
            if v.is_empty() {
                v.push(made.clone())
            }
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
