//! C20: a chain equals running its samplers one after another.
use std::sync::{Arc, Mutex};

use harness::{custom::*, prelude::*};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Wrap {
    Plain,
    Boxed,
    Shared,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Node {
    Is(S, Wrap),
    /// The shared sampler made before, once more.
    Again(u8),
    Fails { at: usize, fail: Fail },
    Chain(Vec<Node>),
}

impl Node {
    fn weight(&self) -> usize {
        match self {
            Node::Is(s, _) => s.weight(),
            Node::Chain(v) => v.iter().map(Node::weight).sum(),
            _ => 0,
        }
    }
}

/// How the pieces are put together at each level.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Join {
    Push,
    Add,
    AddAssign,
    Mixed,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Mode {
    SampleThenAsk,
    SampleToken,
    LogitsSample,
    LogitsSampleToken,
    /// As a trait object.
    Dyn,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Run(LIn, Mode),
    /// The chain grows between uses.
    Grow(Node),
    Prepend,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    nodes: Vec<Node>,
    join: Join,
    ops: Vec<Op>,
    hist: Hist,
    seed: u64,
    /// So many steps in all (0: each once).
    #[serde(default)]
    again: u32,
}

type Shared = Arc<Mutex<dyn Sampler>>;

/// The same samplers, kept one by one.
enum Leaf {
    One(Box<dyn Sampler>),
    Shared(Shared),
    Many(Vec<Leaf>),
}

fn concrete(s: &S, ids: &[u32]) -> Shared {
    with_sampler!(s, ids, |s| Arc::new(Mutex::new(s)))
}

fn push_to(chain: &mut SamplerChain, s: impl Sampler + Send + Sync + 'static, how: usize) {
    match how {
        0 => {
            chain.push_sampler(s);
        }
        1 => *chain = std::mem::take(chain) + s,
        _ => *chain += s,
    }
}

struct Build<'a> {
    ids: &'a [u32],
    join: Join,
    n: usize,
    shared: Vec<Shared>,
    shared_ref: Vec<Shared>,
}

impl Build<'_> {
    fn how(&mut self) -> usize {
        self.n += 1;
        match self.join {
            Join::Push => 0,
            Join::Add => 1,
            Join::AddAssign => 2,
            Join::Mixed => self.n % 3,
        }
    }
    /// Adds the node to the chain, and returns its hand-run twin.
    fn add(&mut self, chain: &mut SamplerChain, node: &Node) -> Leaf {
        let how = self.how();
        match node {
            Node::Is(s, Wrap::Plain) => {
                with_sampler!(s, self.ids, |s| push_to(chain, s, how));
                Leaf::One(s.boxed(self.ids))
            }
            Node::Is(s, Wrap::Boxed) => {
                push_to(chain, s.boxed(self.ids), how);
                Leaf::One(s.boxed(self.ids))
            }
            Node::Is(s, Wrap::Shared) => {
                let a = concrete(s, self.ids);
                self.shared.push(a.clone());
                push_to(chain, a, how);
                let b = concrete(s, self.ids);
                self.shared_ref.push(b.clone());
                Leaf::Shared(b)
            }
            Node::Again(i) => {
                if self.shared.is_empty() {
                    push_to(chain, SampleGreedy::new(), how);
                    return Leaf::One(Box::new(SampleGreedy::new()));
                }
                let i = *i as usize % self.shared.len();
                push_to(chain, self.shared[i].clone(), how);
                Leaf::Shared(self.shared_ref[i].clone())
            }
            Node::Fails { at, fail } => {
                let f = Failing { at: *at, calls: 0, fail: fail.clone(), token: None };
                push_to(chain, f.clone(), how);
                Leaf::One(Box::new(f))
            }
            Node::Chain(v) => {
                let mut inner = if how == 0 { SamplerChain::new() } else { SamplerChain::default() };
                let leaves = v.iter().map(|n| self.add(&mut inner, n)).collect();
                push_to(chain, inner, how);
                Leaf::Many(leaves)
            }
        }
    }
}

/// Run in order by hand; the token of a list of samplers is that of its last.
fn by_hand(leaves: &mut [Leaf], res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
    let mut token = None;
    for leaf in leaves {
        token = match leaf {
            Leaf::One(s) => {
                s.as_mut().sample(res, l)?;
                s.as_ref().sampled_token_id()
            }
            Leaf::Shared(s) => {
                let mut s = s.lock().unwrap();
                s.sample(res, l)?;
                s.sampled_token_id()
            }
            Leaf::Many(v) => by_hand(v, res, l)?,
        };
    }
    Ok(token)
}

fn kind(l: &[Leaf]) -> usize {
    l.iter().map(|l| if let Leaf::Many(v) = l { kind(v) } else { 1 }).sum()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C20";
    const RULE: &'static str = "Random trees of samplers (plain, boxed, shared, shared and used twice, failing at a chosen call, nested chains down to depth 3) put together in every way, run 1 to 5 times in every calling mode against the same samplers run by hand with twin resources; lists compared by bits. Non-trivial: three or more samplers on a list of two or more tokens, nested or failing.";
    const QUICK: u64 = 30_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let wrap = prop_oneof![3 => Just(Wrap::Plain), 2 => Just(Wrap::Boxed), 2 => Just(Wrap::Shared)];
        let leaf = prop_oneof![
            14 => (gen::s_any(), wrap).prop_map(|(s, w)| Node::Is(s, w)),
            1 => any::<u8>().prop_map(Node::Again),
            1 => (0usize..4, fail()).prop_map(|(at, fail)| Node::Fails { at, fail }),
        ];
        let node = leaf.prop_recursive(3, 12, 4, |inner| vec(inner, 0..4).prop_map(Node::Chain)).boxed();
        let mode = prop_oneof![
            Just(Mode::SampleThenAsk),
            Just(Mode::SampleToken),
            Just(Mode::LogitsSample),
            Just(Mode::LogitsSampleToken),
            Just(Mode::Dyn)
        ];
        let op = prop_oneof![
            12 => (gen::lin_short(), mode).prop_map(|(l, m)| Op::Run(l, m)),
            2 => node.clone().prop_map(Op::Grow),
            1 => Just(Op::Prepend),
        ];
        let join = prop_oneof![Just(Join::Push), Just(Join::Add), Just(Join::AddAssign), Just(Join::Mixed)];
        // Now and then a long chain, or many runs.
        let wide = vec((gen::s_any(), prop_oneof![3 => Just(Wrap::Plain), 2 => Just(Wrap::Boxed), 2 => Just(Wrap::Shared)]).prop_map(|(s, w)| Node::Is(s, w)), 6..45);
        let very = vec((gen::s_any(), Just(Wrap::Plain)).prop_map(|(s, w)| Node::Is(s, w)), 200..1200);
        let nodes = prop_oneof![3000 => vec(node, 0..6), 10 => wide, 1 => very];
        (nodes, join, gen::seq(op, 1..6, 6..60, 300), gen::hist(), any::<u64>(), gen::again())
            .prop_map(|(nodes, join, ops, hist, seed, again)| Case { nodes, join, ops, hist, seed, again })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let ids: Vec<u32> = c
            .ops
            .iter()
            .find_map(|o| if let Op::Run(l, _) = o { Some(l.ids(l.vals.expand().len())) } else { None })
            .unwrap_or_default();
        let mut b = Build { ids: &ids, join: c.join, n: c.seed as usize % 3, shared: vec![], shared_ref: vec![] };
        let mut chain = SamplerChain::new();
        let mut leaves: Vec<Leaf> = c.nodes.iter().map(|n| b.add(&mut chain, n)).collect();
        let hist = c.hist.expand(&ids);
        let mut r1 = res::simple(Some(c.seed), Some(hist.clone()));
        let mut r2 = res::simple(Some(c.seed), Some(hist));
        ensure!(chain.sampled_token_id().is_none(), "a fresh chain reports a token");
        let cost = 80 * (1 + kind(&leaves)) + c.nodes.iter().map(Node::weight).sum::<usize>();
        for (i, op) in gen::cycled(&c.ops, c.again, |o| if let Op::Run(l, _) = o { cost * (1 + l.vals.len() / 8) } else { 1 }).enumerate() {
            match op {
                Op::Grow(_) if i >= c.ops.len() && kind(&leaves) > 40 => (),
                Op::Grow(n) => {
                    leaves.push(b.add(&mut chain, n));
                    ensure!(chain.sampled_token_id().is_none(), "op {i}: token reported after the chain grew");
                }
                Op::Prepend => {
                    let t = chain.sampled_token_id();
                    chain.sample_prepend(&mut r1);
                    ensure!(t == chain.sampled_token_id(), "op {i}: prepend changed the token");
                }
                Op::Run(spec, mode) => {
                    let mut l1 = spec.build();
                    let mut l2 = spec.build();
                    let n = l1.len();
                    let want = by_hand(&mut leaves, &mut r2, &mut l2);
                    let got = match mode {
                        Mode::SampleThenAsk => chain.sample(&mut r1, &mut l1).map(|_| ()).map(|_| chain.sampled_token_id()),
                        Mode::SampleToken => chain.sample_token(&mut r1, &mut l1),
                        Mode::LogitsSample => l1.sample(&mut r1, &mut chain).map(|_| ()).map(|_| chain.sampled_token_id()),
                        Mode::LogitsSampleToken => l1.sample_token(&mut r1, &mut chain),
                        Mode::Dyn => {
                            let d: &mut dyn Sampler = &mut chain;
                            d.sample_token(&mut r1, &mut l1)
                        }
                    };
                    match (&want, &got) {
                        (Ok(a), Ok(b)) => {
                            ensure!(a == b, "op {i}: the chain reports {b:?}, its last sampler {a:?}");
                            ensure!(chain.sampled_token_id() == *a, "op {i}: asked again the chain reports {:?}, not {a:?}", chain.sampled_token_id());
                        }
                        (Err(a), Err(b)) => {
                            let (a, b) = (err_text(a), err_text(b));
                            ensure!(a == b, "op {i}: the chain fails with {b}, its sampler with {a}");
                            ensure!(chain.sampled_token_id().is_none(), "op {i}: a failed chain reports {:?}", chain.sampled_token_id());
                            cov.label("failed");
                        }
                        _ => return Err(format!("op {i}: by hand {want:?}, the chain {got:?}")),
                    }
                    check_identical(&l2, &l1).map_err(|e| format!("op {i}: list by hand against chain: {e}"))?;
                    let (h1, h2) = (res::history(&r1), res::history(&r2));
                    ensure!(h1 == h2, "op {i}: history {h2:?} by hand, {h1:?} from the chain");
                    let nested = leaves.iter().any(|l| matches!(l, Leaf::Many(v) if !v.is_empty()));
                    cov.nontrivial_if(n > 1 && kind(&leaves) > 2 && (nested || want.is_err()));
                    cov.label_if(matches!(want, Ok(Some(_))), "token reported");
                    cov.label_if(matches!(want, Ok(None)), "no token");
                    cov.label_if(nested, "nested");
                }
            }
        }
        let (f1, f2) = (res::rng_fingerprint(&mut r1), res::rng_fingerprint(&mut r2));
        ensure!(f1 == f2, "the generator ended up in different states");
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
