//! C32: the hooks and overrides of a caller's own configurable sampler are honoured.
use std::sync::{Arc, Mutex};

use harness::{opts::*, prelude::*};

/// What the sampler's `pre_set_option` does.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Pre {
    Keep,
    /// Sets another value instead.
    Replace(V),
    /// Replaces it by one of the option's own type.
    Fit(u64, D, bool, String),
    Refuse,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Post {
    Nothing,
    /// Overwrites another option itself.
    Other(u8),
    Refuse,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Set(Key, V),
    SetTyped(Key, u64, D, bool, String),
    Get(Key),
    /// (key, value texts by type)
    Configure(Vec<(Key, String, String, String, String)>),
    /// By the function the trait's default is made of.
    SetByFunction(Key, V),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    nums: Nums,
    table: Vec<(u8, Ty, bool)>,
    pre: Vec<Pre>,
    post: Vec<Post>,
    /// The sampler has a `set_option` of its own.
    own_set: bool,
    own_get: bool,
    own_configure: bool,
    /// 0: used directly, 1: in a single slot of a builder, 2: made by the
    /// factory of a single slot, 3: of a chain slot
    route: u8,
    ops: Vec<Op>,
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Configure(String),
    Set(String, V),
    Get(String),
    Pre(&'static str, Ty, V),
    /// With the values all options have at that time.
    Post(&'static str, Ty, Vec<V>),
}

#[derive(Debug, Default)]
struct Shared {
    events: Vec<Ev>,
    pres: usize,
    posts: usize,
    /// The values of the options after the last event.
    now: Vec<V>,
}

#[derive(Debug)]
struct Hooked<UI, FL> {
    own: Own<UI, FL>,
    pre: Vec<Pre>,
    post: Vec<Post>,
    own_set: bool,
    own_get: bool,
    own_configure: bool,
    shared: Arc<Mutex<Shared>>,
}

fn ownvals<UI: ConfigurableNumValue, FL: ConfigurableNumValue>(o: &Own<UI, FL>) -> Vec<V> {
    (0..o.table.len())
        .map(|i| match o.table[i].1 {
            Ty::U => V::U(o.u[i].to_u64().unwrap_or(0)),
            Ty::F => V::F(D(o.f[i].to_f64().unwrap_or(0.0))),
            Ty::B => V::B(o.b[i]),
            Ty::S => V::S(o.s[i].to_string()),
        })
        .collect()
}

/// What a post hook puts in an option it overwrites.
fn overwrite(t: Ty) -> V {
    match t {
        Ty::U => V::U(77),
        Ty::F => V::F(D(7.25)),
        Ty::B => V::B(true),
        Ty::S => V::S("by post".into()),
    }
}

fn nth<T: Clone>(v: &[T], i: usize, d: T) -> T {
    if v.is_empty() {
        d
    } else {
        v[i % v.len()].clone()
    }
}

fn fit(t: Ty, p: &Pre) -> Option<V> {
    Some(match p {
        Pre::Keep | Pre::Refuse => return None,
        Pre::Replace(v) => v.clone(),
        Pre::Fit(u, d, b, s) => match t {
            Ty::U => V::U(*u),
            Ty::F => V::F(*d),
            Ty::B => V::B(*b),
            Ty::S => V::S(s.clone()),
        },
    })
}

impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> HasSamplerMetadata<UI, FL> for Hooked<UI, FL> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        self.own.sampler_metadata()
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, FL>> {
        self.own.sampler_options()
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, FL>> {
        self.own.sampler_options_mut()
    }
}

impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> ConfigurableSampler<UI, FL> for Hooked<UI, FL> {
    fn set_option(&mut self, key: &str, val: SamplerOptionValue) -> anyhow::Result<()> {
        if self.own_set {
            self.shared.lock().unwrap().events.push(Ev::Set(key.to_string(), V::from_option(val.clone())));
        }
        let r = configurable_sampler::set_option(self, key, val).map(|_| ());
        self.shared.lock().unwrap().now = ownvals(&self.own);
        r
    }
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue) -> anyhow::Result<()> {
        let mut s = self.shared.lock().unwrap();
        s.events.push(Ev::Pre(md.key, ty(md.option_type), V::from_option(val.clone())));
        let p = nth(&self.pre, s.pres, Pre::Keep);
        s.pres += 1;
        if p == Pre::Refuse {
            anyhow::bail!("refused before");
        }
        if let Some(v) = fit(ty(md.option_type), &p) {
            *val = v.option();
        }
        Ok(())
    }
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> anyhow::Result<()> {
        let mut s = self.shared.lock().unwrap();
        s.events.push(Ev::Post(md.key, ty(md.option_type), ownvals(&self.own)));
        let p = nth(&self.post, s.posts, Post::Nothing);
        s.posts += 1;
        match p {
            Post::Nothing => (),
            Post::Refuse => anyhow::bail!("refused after"),
            Post::Other(i) => {
                let i = i as usize % self.own.table.len();
                match overwrite(self.own.table[i].1) {
                    V::U(u) => self.own.u[i] = UI::from_u64(u).unwrap(),
                    V::F(d) => self.own.f[i] = FL::from_f64(d.0).unwrap(),
                    V::B(b) => self.own.b[i] = b,
                    V::S(t) => self.own.s[i] = t.into(),
                }
            }
        }
        s.now = ownvals(&self.own);
        Ok(())
    }
    fn get_option(&self, key: &str) -> anyhow::Result<SamplerOptionValue<'_>> {
        if self.own_get {
            self.shared.lock().unwrap().events.push(Ev::Get(key.to_string()));
        }
        configurable_sampler::get_option(self, key)
    }
    fn configure(&mut self, s: &str) -> anyhow::Result<()> {
        if self.own_configure {
            self.shared.lock().unwrap().events.push(Ev::Configure(s.to_string()));
        }
        configurable_sampler::configure(self, s)
    }
}

impl<UI: ConfigurableNumValue, FL: ConfigurableNumValue> Sampler for Hooked<UI, FL>
where
    UI: std::fmt::Debug + Send + Sync,
    FL: std::fmt::Debug + Send + Sync,
{
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}

/// The expected state of the sampler.
struct Mo<'a> {
    c: &'a Case,
    m: Model,
    events: Vec<Ev>,
    pres: usize,
    posts: usize,
    /// After a refusing post hook: both values are fine for this option.
    either: Option<(usize, V)>,
}

impl Mo<'_> {
    fn all(&self) -> Vec<V> {
        self.m.vals.iter().map(|v| v.clone().expect("value")).collect()
    }
    /// Setting an option by the common function.
    /// Ok: whether it succeeds. Err: not settled.
    fn set(&mut self, key: &str, v: &V) -> Result<bool, ()> {
        let Some(i) = self.m.find(key) else { return Ok(false) };
        let (k, t, ok) = self.m.table[i];
        if !ok {
            return Ok(false);
        }
        self.events.push(Ev::Pre(k, t, v.clone()));
        let p = nth(&self.c.pre, self.pres, Pre::Keep);
        self.pres += 1;
        if p == Pre::Refuse {
            return Ok(false);
        }
        let v = fit(t, &p).unwrap_or_else(|| v.clone());
        match self.m.may_set(k, &v) {
            Allowed::Fails => return Ok(false),
            Allowed::Either(..) => return Err(()),
            Allowed::Sets(i, v) => {
                let old = self.m.vals[i].replace(v);
                self.events.push(Ev::Post(k, t, self.all()));
                let p = nth(&self.c.post, self.posts, Post::Nothing);
                self.posts += 1;
                match p {
                    Post::Nothing => (),
                    Post::Refuse => {
                        self.either = old.map(|o| (i, o));
                        return Ok(false);
                    }
                    Post::Other(j) => {
                        let j = j as usize % self.m.table.len();
                        self.m.vals[j] = Some(overwrite(self.m.table[j].1));
                    }
                }
            }
        }
        Ok(true)
    }
    fn set_outer(&mut self, key: &str, v: &V) -> Result<bool, ()> {
        if self.c.own_set {
            self.events.push(Ev::Set(key.to_string(), v.clone()));
        }
        self.set(key, v)
    }
    /// None: ends with something the documentation does not settle.
    fn configure(&mut self, s: &str) -> Result<bool, ()> {
        if self.c.own_configure {
            self.events.push(Ev::Configure(s.to_string()));
        }
        for part in s.split(':') {
            if part.trim().is_empty() {
                continue;
            }
            let (k, v) = part.split_once('=').unwrap_or(("", part));
            let Some(i) = self.m.find(k) else { return Ok(false) };
            let (k, t, ok) = self.m.table[i];
            if !ok {
                return Ok(false);
            }
            match denotes(t, v) {
                Denotes::Nothing => return Ok(false),
                Denotes::Maybe(_) => return Err(()),
                Denotes::Is(v) => {
                    if !self.set_outer(k, &v)? {
                        return Ok(false);
                    }
                }
            }
        }
        Ok(true)
    }
}

/// A tidied event: names may be passed on with or without blanks around them.
fn tidy(e: &Ev) -> Ev {
    match e {
        Ev::Configure(s) => Ev::Configure(s.trim().into()),
        Ev::Set(k, v) => Ev::Set(k.trim().into(), v.clone()),
        Ev::Get(k) => Ev::Get(k.trim().into()),
        e => e.clone(),
    }
}

fn run<UI, FL>(c: &Case, cov: &mut Cov) -> Outcome
where
    UI: ConfigurableNumValue + std::fmt::Debug + Send + Sync,
    FL: ConfigurableNumValue + std::fmt::Debug + Send + Sync,
{
    let table = Target::Own(c.nums, c.table.clone()).table();
    let shared = Arc::new(Mutex::new(Shared::default()));
    let make = {
        let (c, table, shared) = (c.clone(), table.clone(), shared.clone());
        move || -> Hooked<UI, FL> {
            let own = Own::new(table.clone());
            shared.lock().unwrap().now = ownvals(&own);
            Hooked { own, pre: c.pre.clone(), post: c.post.clone(), own_set: c.own_set, own_get: c.own_get, own_configure: c.own_configure, shared: shared.clone() }
        }
    };
    let first = ownvals(&Own::<UI, FL>::new(table.clone()));
    let model = Model { vals: first.iter().cloned().map(Some).collect(), table: table.clone(), nums: c.nums, miro: false };
    let mut m = Mo { c, m: model, events: vec![], pres: 0, posts: 0, either: None };
    let mut direct = make();
    let mut boxed: Box<dyn BuildableSampler<UI, FL>> = Box::new(make());
    let mut b = SamplerChainBuilder::<UI, FL>::default();
    {
        let make2 = make.clone();
        let factory = move || Box::new(make2()) as Box<dyn BuildableSampler<UI, FL>>;
        b.push_slot("s".into(), match c.route {
            2 => SamplerSlot::new_single(factory, Some(make())),
            3 => SamplerSlot::new_single(factory, None::<Hooked<UI, FL>>),
            _ => SamplerSlot::new_chain(factory, []),
        });
    }
    let mut slot_filled = c.route == 2;
    let (mut sets, mut refused) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        shared.lock().unwrap().events.clear();
        m.events.clear();
        m.either = None;
        let typed = |m: &Model, k: &str, u: u64, d: D, b: bool, s: &str| match m.find(k).map(|i| m.table[i].1) {
            Some(Ty::U) | None => V::U(u),
            Some(Ty::F) => V::F(d),
            Some(Ty::B) => V::B(b),
            Some(Ty::S) => V::S(s.to_string()),
        };
        let builder = c.route >= 2;
        let what: String;
        let (got, want): (Result<Option<V>, String>, Result<bool, ()>) = match op {
            Op::Set(..) | Op::SetTyped(..) | Op::SetByFunction(..) | Op::Get(_) if builder => continue,
            Op::Set(..) | Op::SetTyped(..) | Op::SetByFunction(..) => {
                let (k, v) = match op {
                    Op::Set(k, v) | Op::SetByFunction(k, v) => (k.text(&table), v.clone()),
                    Op::SetTyped(k, u, d, b, s) => {
                        let k = k.text(&table);
                        let v = typed(&m.m, &k, *u, *d, *b, s);
                        (k, v)
                    }
                    _ => unreachable!(),
                };
                what = format!("setting {k:?} to {v:?}");
                if matches!(op, Op::SetByFunction(..)) {
                    let r = match c.route {
                        0 => configurable_sampler::set_option(&mut direct, &k, v.option()).map(|_| ()),
                        _ => configurable_sampler::set_option(&mut *boxed, &k, v.option()).map(|_| ()),
                    };
                    // No override around it that would look.
                    shared.lock().unwrap().now = match c.route {
                        0 => ownvals(&direct.own),
                        _ => m.all(),
                    };
                    let w = m.set(&k, &v);
                    if c.route != 0 {
                        shared.lock().unwrap().now = m.all();
                    }
                    (r.map(|_| None).map_err(|e| e.to_string()), w)
                } else {
                    let r = if c.route == 0 { direct.set_option(&k, v.option()) } else { boxed.set_option(&k, v.option()) };
                    (r.map(|_| None).map_err(|e| e.to_string()), m.set_outer(&k, &v))
                }
            }
            Op::Get(k) => {
                let k = k.text(&table);
                what = format!("reading {k:?}");
                if c.own_get {
                    m.events.push(Ev::Get(k.clone()));
                }
                let r = if c.route == 0 { direct.get_option(&k) } else { boxed.get_option(&k) };
                let want = m.m.find(&k).filter(|i| table[*i].2).and_then(|i| m.m.vals[i].clone());
                let got = r.map(|v| Some(V::from_option(v))).map_err(|e| e.to_string());
                if let Ok(g) = &got {
                    ensure!(*g == want, "step {step}: {what}: {g:?}, should be {want:?}");
                }
                (got, Ok(want.is_some()))
            }
            Op::Configure(parts) => {
                let s: Vec<String> = parts
                    .iter()
                    .map(|(k, u, f, b, t)| {
                        let k = k.text(&table);
                        let v = match m.m.find(&k).map(|i| table[i].1) {
                            Some(Ty::U) | None => u,
                            Some(Ty::F) => f,
                            Some(Ty::B) => b,
                            Some(Ty::S) => t,
                        };
                        format!("{k}={v}")
                    })
                    .collect();
                let s = s.join(":");
                what = format!("configuring {s:?} by route {}", c.route);
                let fresh = c.route > 2 && (c.route != 3 || !slot_filled);
                if fresh {
                    m.m.vals = first.iter().cloned().map(Some).collect();
                }
                let r = match c.route {
                    0 => direct.configure(&s),
                    1 => boxed.configure(&s),
                    _ => b.configure("s", &s),
                };
                let w = m.configure(&s);
                if r.is_ok() {
                    slot_filled = true;
                }
                (r.map(|_| None).map_err(|e| e.to_string()), w)
            }
        };
        let mut s = shared.lock().unwrap();
        let ok = match (&got, want) {
            (_, Err(())) => {
                // Not settled how it goes on: take the state as it is.
                cov.label("unsettled");
                m.pres = s.pres;
                m.posts = s.posts;
                m.m.vals = s.now.iter().cloned().map(Some).collect();
                if c.route == 1 && matches!(op, Op::SetByFunction(..)) {
                    return Ok(());
                }
                continue;
            }
            (Ok(_), Ok(true)) => true,
            (Err(_), Ok(false)) => false,
            (r, w) => return Err(format!("step {step}: {what}: {r:?}, expected success: {w:?}, events {:?}", s.events)),
        };
        let (a, e): (Vec<_>, Vec<_>) = (s.events.iter().map(tidy).collect(), m.events.iter().map(tidy).collect());
        ensure!(a == e, "step {step}: {what} ({got:?}): the sampler saw {a:?}, expected {e:?}");
        if let Some((i, old)) = m.either.take() {
            if s.now.get(i) == Some(&old) {
                m.m.vals[i] = Some(old);
            }
        }
        let all = m.all();
        ensure!(s.now == all, "step {step}: {what} ({got:?}): options are {:?}, should be {all:?}", s.now);
        s.events.clear();
        sets += usize::from(ok && !e.is_empty());
        refused += usize::from(!ok && !e.is_empty());
        cov.label_if(!ok && e.iter().any(|e| matches!(e, Ev::Pre(..))), "refused or misfit");
        cov.label_if(e.len() > 3, "several hooks in one call");
        cov.label_if(builder && ok, "through a builder");
    }
    cov.nontrivial_if(sets > 0 && refused > 0);
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C32";
    const RULE: &'static str = "Up to 10 set, get and configure calls (names as in C26, texts as in C27) on a caller's sampler with any option table, 5 number type pairs, hooks that keep, replace or refuse values and overwrite other options, and its own set_option, get_option and configure, used directly, boxed or through a builder slot; the recorded hook calls and all option values against a model. Non-trivial: a call that went through the hooks and succeeded, and one that failed.";
    const QUICK: u64 = 30_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let t = || prop_oneof![3 => Just(Ty::U), 3 => Just(Ty::F), 2 => Just(Ty::B), 2 => Just(Ty::S)];
        let nums = prop_oneof![Just(Nums::U8F32), Just(Nums::U16F64), Just(Nums::U32F32), Just(Nums::U64F64), Just(Nums::UsizeF32)];
        let own = (nums, own_table(t().boxed(), 0.93, 1));
        let texts = |t: Ty| prop_oneof![12 => good_text(t), 1 => bad_text()].boxed();
        let good_key = || prop_oneof![5 => (harness::opts::nth(), prop_oneof![15 => Just(0u8), 4 => 2u8..10, 1 => 8u8..120]).prop_map(|(i, cut)| Key::Nth { i, cut, left: 0, right: 0 }).boxed(), 1 => key()];
        let pre = prop_oneof![
            5 => Just(Pre::Keep),
            1 => value().prop_map(Pre::Replace),
            2 => (any_u64(), any_f64(), any::<bool>(), text()).prop_map(|(u, d, b, s)| Pre::Fit(u, d, b, s)),
            1 => Just(Pre::Refuse),
        ];
        let post = prop_oneof![6 => Just(Post::Nothing), 2 => any::<u8>().prop_map(Post::Other), 1 => Just(Post::Refuse)];
        let small = prop_oneof![3 => (0u32..200).prop_map(|u| u.to_string()), 1 => texts(Ty::U)];
        let op = prop_oneof![
            1 => (key(), value()).prop_map(|(k, v)| Op::Set(k, v)),
            4 => (good_key(), any_u64(), any_f64(), any::<bool>(), text()).prop_map(|(k, u, d, b, s)| Op::SetTyped(k, u, d, b, s)),
            1 => key().prop_map(Op::Get),
            1 => (good_key(), value()).prop_map(|(k, v)| Op::SetByFunction(k, v)),
            4 => vec((good_key(), small, texts(Ty::F), texts(Ty::B), texts(Ty::S)), 1..5).prop_map(Op::Configure),
        ];
        let route = prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => 2u8..5];
        (own, vec(pre, 0..5), vec(post, 0..5), [any::<bool>(), any::<bool>(), any::<bool>()], route, gen::seq(op.boxed(), 1..11, 11..40, 200))
            .prop_map(|((nums, table), pre, post, [own_set, own_get, own_configure], route, ops)| Case {
                nums, table, pre, post, own_set, own_get, own_configure, route, ops,
            })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        match c.nums {
            Nums::U8F32 => run::<u8, f32>(c, cov),
            Nums::U16F64 => run::<u16, f64>(c, cov),
            Nums::U32F32 => run::<u32, f32>(c, cov),
            Nums::U64F64 => run::<u64, f64>(c, cov),
            Nums::UsizeF32 => run::<usize, f32>(c, cov),
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
