//! C21: wrapped samplers behave as the sampler inside, prepend included.
use std::{
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

use harness::{custom::*, prelude::*};

/// A nesting of wrappers around recording samplers (numbered left to right).
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum W {
    Rec(Option<(usize, Fail)>),
    /// Behind `Box<dyn BuildableSampler>`.
    Buildable(Option<(usize, Fail)>),
    Boxed(Box<W>),
    Shared(Box<W>),
    Chain(Vec<W>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Prepend,
    Sample,
    SampleToken,
    /// Through the convenience methods of the list.
    LogitsSample,
    LogitsSampleToken,
    Ask,
    /// A holder of the lock panics.
    Poison(u8),
    /// Another thread holds the lock when the next call starts.
    Contend(u8),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Shape {
    Greedy,
    Rand,
    Mirostat,
    ChainGreedy,
    ChainRand,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Case {
    Tree { w: W, ops: Vec<Op>, n: u8, hist: Vec<u32> },
    /// One shared sampler, several threads with disjoint token ids.
    Threads { inner: Shape, threads: u8, calls: u16, boxed: bool },
}

type Shared = Arc<Mutex<dyn Sampler>>;

/// What is known about the nesting.
enum M {
    Rec(usize),
    Boxed(Box<M>),
    Shared(usize, Box<M>),
    Chain { kids: Vec<M>, token: Vec<Option<u32>> },
}

struct Build {
    log: Log,
    recs: Vec<Option<(usize, Fail)>>,
    locks: Vec<Shared>,
}

impl Build {
    fn rec(&mut self, f: &Option<(usize, Fail)>) -> Recorder {
        self.recs.push(f.clone());
        Recorder::new(self.recs.len(), &self.log, f.clone())
    }
    fn build(&mut self, w: &W) -> (Box<dyn Sampler>, M) {
        match w {
            W::Rec(f) => (Box::new(self.rec(f)), M::Rec(self.recs.len())),
            W::Buildable(f) => {
                let b: Box<dyn BuildableSampler<usize, f32>> = Box::new(self.rec(f));
                (Box::new(b), M::Boxed(Box::new(M::Rec(self.recs.len()))))
            }
            W::Boxed(w) => {
                let (b, m) = self.build(w);
                (Box::new(b), M::Boxed(Box::new(m)))
            }
            W::Shared(w) => {
                let (a, m): (Shared, M) = match &**w {
                    W::Rec(f) => (Arc::new(Mutex::new(self.rec(f))), M::Rec(self.recs.len())),
                    w => {
                        let (b, m) = self.build(w);
                        (Arc::new(Mutex::new(b)), m)
                    }
                };
                self.locks.push(a.clone());
                (Box::new(a), M::Shared(self.locks.len() - 1, Box::new(m)))
            }
            W::Chain(v) => {
                let mut c = SamplerChain::new();
                let mut kids = vec![];
                for w in v {
                    // No box in between where it can be avoided.
                    let m = match w {
                        W::Rec(f) => {
                            c += self.rec(f);
                            M::Rec(self.recs.len())
                        }
                        W::Buildable(f) => {
                            let b: Box<dyn BuildableSampler<usize, f32>> = Box::new(self.rec(f));
                            c += b;
                            M::Rec(self.recs.len())
                        }
                        W::Shared(_) => {
                            let (_, m) = self.build(w);
                            c += self.locks[self.locks.len() - 1].clone();
                            m
                        }
                        w => {
                            let (b, m) = self.build(w);
                            c += b;
                            m
                        }
                    };
                    kids.push(m);
                }
                (Box::new(c), M::Chain { kids, token: vec![None] })
            }
        }
    }
}

/// The expected world, driven by the events that were really recorded.
struct World {
    fails: Vec<Option<(usize, Fail)>>,
    poisoned: HashMap<usize, bool>,
    calls: Vec<usize>,
    last: Vec<Option<u32>>,
    list: Vec<(u32, f32)>,
    hist: Vec<u32>,
}

/// Err: what the real call must fail with. Ok: acceptable reported tokens.
type Ran = Result<Vec<Option<u32>>, String>;

impl World {
    fn is_poisoned(&self, lock: usize) -> bool {
        self.poisoned.get(&lock).copied().unwrap_or(false)
    }
    /// `kind`: the exact call the inner sampler must receive; None inside a
    /// chain, which may run its members by either sampling call.
    fn run(&mut self, m: &mut M, kind: Option<Ev>, evs: &mut std::vec::IntoIter<(usize, Ev)>) -> Result<Ran, String> {
        match m {
            M::Rec(id) => {
                let id = *id;
                let Some((got, ev)) = evs.next() else {
                    return Err(format!("sampler {id} was not called"));
                };
                ensure!(got == id, "sampler {got} was called where {id} was next");
                match kind {
                    Some(k) => ensure!(ev == k, "sampler {id} received {ev:?} for {k:?}"),
                    None => ensure!(ev != Ev::Prepend, "sampler {id} received {ev:?} during sampling"),
                }
                self.calls[id - 1] += 1;
                let n = self.calls[id - 1];
                if let Some((at, f)) = &self.fails[id - 1] {
                    if *at == n {
                        self.last[id - 1] = None;
                        return Ok(Err(err_text(&f.error())));
                    }
                }
                let salt = if ev == Ev::Sample { 0 } else { 1 };
                self.list.push((1000 * id as u32 + n as u32, -(n as f32) - salt as f32));
                self.hist.push(id as u32 * 10 + salt);
                let t = 1_000_000 * (salt + 1) + 1000 * id as u32 + n as u32;
                self.last[id - 1] = Some(t);
                Ok(Ok(if ev == Ev::Sample { vec![Some(t)] } else { vec![Some(t + 500_000)] }))
            }
            M::Boxed(m) => self.run(m, kind, evs),
            M::Shared(lock, m) => {
                if self.is_poisoned(*lock) {
                    return Ok(Err("InternalError(".into()));
                }
                self.run(m, kind, evs)
            }
            M::Chain { kids, token } => {
                *token = vec![None];
                let mut alts = vec![None];
                for k in kids {
                    match self.run(k, None, evs)? {
                        Err(e) => {
                            *token = vec![None];
                            return Ok(Err(e));
                        }
                        Ok(a) => {
                            alts = a;
                            alts.extend(self.token(k));
                        }
                    }
                }
                *token = alts.clone();
                Ok(Ok(alts))
            }
        }
    }
    fn token(&self, m: &M) -> Vec<Option<u32>> {
        match m {
            M::Rec(id) => vec![self.last[id - 1]],
            M::Boxed(m) => self.token(m),
            M::Shared(l, _) if self.is_poisoned(*l) => vec![None],
            M::Shared(_, m) => self.token(m),
            M::Chain { token, .. } => token.clone(),
        }
    }
    /// Members in order; those behind a poisoned lock are marked.
    fn members(&self, m: &M, behind: bool, out: &mut Vec<(usize, bool)>) {
        match m {
            M::Rec(id) => out.push((*id, behind)),
            M::Boxed(m) => self.members(m, behind, out),
            M::Shared(l, m) => self.members(m, behind || self.is_poisoned(*l), out),
            M::Chain { kids, .. } => kids.iter().for_each(|k| self.members(k, behind, out)),
        }
    }
}

fn tree(w: &W, ops: &[Op], n: u8, hist: &[u32], cov: &mut Cov) -> Outcome {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut b = Build { log: log.clone(), recs: vec![], locks: vec![] };
    let (mut s, mut m) = b.build(w);
    let k = b.recs.len();
    let mut world = World {
        fails: b.recs.clone(),
        poisoned: HashMap::new(),
        calls: vec![0; k],
        last: vec![None; k],
        list: (0..n as u32).map(|i| (i, 0.5)).collect(),
        hist: hist.to_vec(),
    };
    let mut l = Logits::try_from_iter((0..n).map(|_| 0.5f32)).map_err(|e| e.to_string())?;
    let mut res = res::Counting::new(None, Some(hist.to_vec()));
    let mut ran = 0;
    let mut held = None;
    for (i, op) in ops.iter().enumerate() {
        if let Op::Contend(j) = op {
            held = Some(*j as usize);
            continue;
        }
        log.lock().unwrap().clear();
        let holder = held.take().filter(|_| !b.locks.is_empty()).map(|j| {
            let lock = b.locks[j % b.locks.len()].clone();
            let (tx, rx) = std::sync::mpsc::channel();
            let h = std::thread::spawn(move || {
                let _g = lock.lock();
                let _ = tx.send(());
                std::thread::sleep(std::time::Duration::from_micros(300));
            });
            let _ = rx.recv();
            cov.label("lock held elsewhere");
            h
        });
        match op {
            Op::Contend(_) => (),
            Op::Poison(j) => {
                if b.locks.is_empty() {
                    continue;
                }
                let j = *j as usize % b.locks.len();
                let lock = b.locks[j].clone();
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _g = lock.lock();
                    panic!("holder of the lock");
                }));
                world.poisoned.insert(j, true);
                cov.label("poisoned lock");
            }
            Op::Prepend => {
                s.as_ref().sample_prepend(&mut res);
                let got = log.lock().unwrap().clone();
                let mut want = vec![];
                world.members(&m, false, &mut want);
                let all: Vec<(usize, Ev)> = want.iter().map(|x| (x.0, Ev::Prepend)).collect();
                let open: Vec<(usize, Ev)> = want.iter().filter(|x| !x.1).map(|x| (x.0, Ev::Prepend)).collect();
                ensure!(got == open || got == all, "op {i}: prepend reached {got:?}, expected {open:?}");
                world.hist.extend(got.iter().map(|x| x.0 as u32 * 10 + 7));
                cov.label("prepend");
            }
            Op::Ask => {
                let t = s.as_ref().sampled_token_id();
                let want = world.token(&m);
                ensure!(want.contains(&t), "op {i}: asked for its token the wrapper says {t:?}, the sampler inside {want:?}");
                ensure!(log.lock().unwrap().is_empty(), "op {i}: asking for the token ran {:?}", log.lock().unwrap());
            }
            op => {
                ran += 1;
                let (kind, got) = match op {
                    Op::Sample => (Ev::Sample, s.as_mut().sample(&mut res, &mut l).map(|_| None)),
                    Op::SampleToken => (Ev::SampleToken, s.as_mut().sample_token(&mut res, &mut l).map(Some)),
                    Op::LogitsSample => (Ev::Sample, l.sample(&mut res, &mut s).map(|_| None)),
                    _ => (Ev::SampleToken, l.sample_token(&mut res, &mut s).map(Some)),
                };
                let evs = log.lock().unwrap().clone();
                let mut it = evs.clone().into_iter();
                let want = world.run(&mut m, Some(kind), &mut it).map_err(|e| format!("op {i} ({op:?}): {e} (calls: {evs:?})"))?;
                ensure!(it.len() == 0, "op {i}: unexpected further calls {:?}", it.collect::<Vec<_>>());
                match (want, got) {
                    (Err(e), Err(g)) => {
                        let g = err_text(&g);
                        ensure!(if e == "InternalError(" { g.starts_with(&e) } else { g == e }, "op {i}: failed with {g}, the sampler inside with {e}");
                        cov.label("error passed on");
                    }
                    (Ok(alts), Ok(Some(t))) => {
                        ensure!(alts.contains(&t), "op {i}: reported {t:?}, the sampler inside {alts:?}")
                    }
                    (Ok(_), Ok(None)) => (),
                    (w, g) => return Err(format!("op {i}: got {g:?}, the sampler inside {w:?}")),
                }
                let list: Vec<(u32, f32)> = l.iter().map(|x| (x.token_id, x.logit)).collect();
                ensure!(list == world.list, "op {i}: the list is not the caller's: {list:?} for {:?}", world.list);
            }
        }
        if let Some(h) = holder {
            let _ = h.join();
        }
        ensure!(res.hist.as_ref() == Some(&world.hist), "op {i}: the history is {:?} for {:?}", res.hist, world.hist);
    }
    cov.nontrivial_if(k > 1 && ran > 1);
    Ok(())
}

fn threads(inner: &Shape, threads: u8, calls: u16, boxed: bool) -> Outcome {
    let chain = |last: Box<dyn Sampler>| {
        let mut c = SamplerChain::new() + SampleTemperature::new(0.5);
        c += last;
        c
    };
    let s: Shared = match inner {
        Shape::Greedy => Arc::new(Mutex::new(SampleGreedy::new())),
        Shape::Rand => Arc::new(Mutex::new(SampleRandDistrib::new())),
        Shape::Mirostat => Arc::new(Mutex::new(SampleMirostat2::new(3.0, 0.1))),
        Shape::ChainGreedy => Arc::new(Mutex::new(chain(Box::new(SampleGreedy::new())))),
        Shape::ChainRand => Arc::new(Mutex::new(chain(Box::new(SampleRandDistrib::new())))),
    };
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..threads as u32 {
            let (s, bad) = (s.clone(), &bad);
            sc.spawn(move || {
                let mut plain: Shared = s.clone();
                let mut in_box: Box<dyn Sampler> = Box::new(s);
                let mut res = res::simple(Some(t as u64), None);
                for c in 0..calls {
                    let mut l = Logits::default();
                    // Lists of different lengths keep the callers out of step.
                    for j in 0..1 + (c as u32 + t) % 3 {
                        l.push(Logit { token_id: 1000 * (t + 1) + j, logit: j as f32, prob: 0.0 });
                    }
                    let r = if boxed { in_box.sample_token(&mut res, &mut l) } else { plain.sample_token(&mut res, &mut l) };
                    if !matches!(r, Ok(Some(x)) if x / 1000 == t + 1) {
                        bad.lock().unwrap().get_or_insert(format!("thread {t} call {c}: answered {r:?}, own ids are {}..", 1000 * (t + 1)));
                        return;
                    }
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

struct P;
impl Prop for P {
    const ID: &'static str = "C21";
    const RULE: &'static str = "Random nestings (box, shared lock, configurable box, chain; depth up to 4) of recording samplers whose sample_token differs from sample, driven by up to 8 calls incl. failures and poisoned locks, against a model of who must be called, sometimes while another thread holds one of the locks; 1 in 250 cases runs one shared sampler from 2 to 5 threads. Non-trivial: two or more recorders and two or more sampling calls, or a thread case.";
    const QUICK: u64 = 100_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let fails = || prop_oneof![4 => Just(None), 1 => (1usize..5, fail()).prop_map(Some)];
        let leaf = prop_oneof![3 => fails().prop_map(W::Rec), 1 => fails().prop_map(W::Buildable)];
        let w = leaf.prop_recursive(4, 14, 4, |w| {
            prop_oneof![
                2 => w.clone().prop_map(|w| W::Boxed(Box::new(w))),
                3 => w.clone().prop_map(|w| W::Shared(Box::new(w))),
                3 => vec(w, 0..4).prop_map(W::Chain),
            ]
        });
        let w = prop_oneof![1 => w.clone(), 3 => gen::seq(w, 2..5, 5..40, 300).prop_map(W::Chain)];
        let op = prop_oneof![
            150 => Just(Op::Prepend),
            150 => Just(Op::Sample),
            150 => Just(Op::SampleToken),
            50 => Just(Op::LogitsSample),
            50 => Just(Op::LogitsSampleToken),
            150 => Just(Op::Ask),
            50 => any::<u8>().prop_map(Op::Poison),
            2 => any::<u8>().prop_map(Op::Contend),
        ];
        let tree = (w, gen::seq(op, 1..9, 9..150, 300), 0u8..5, vec(any::<u32>(), 0..3)).prop_map(|(w, ops, n, hist)| Case::Tree { w, ops, n, hist });
        let inner = prop_oneof![Just(Shape::Greedy), Just(Shape::Rand), Just(Shape::Mirostat), Just(Shape::ChainGreedy), Just(Shape::ChainRand)];
        let thr = (inner, 2u8..6, 20u16..300, any::<bool>()).prop_map(|(inner, threads, calls, boxed)| Case::Threads { inner, threads, calls, boxed });
        prop_oneof![250 => tree, 1 => thr].boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        match c {
            Case::Tree { w, ops, n, hist } => tree(w, ops, *n, hist, cov),
            Case::Threads { inner, threads: t, calls, boxed } => {
                cov.label("threads");
                cov.nontrivial();
                threads(inner, *t, *calls, *boxed)
            }
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
