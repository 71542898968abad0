//! The search loop: seeded generation, checking, shrinking, replay, evidence.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    sync::Mutex,
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one execution of a check observed about its case.
#[derive(Default)]
pub struct Cov {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Cov {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

pub type Outcome = Result<(), String>;

/// `ensure!(cond, "message {}", x)`: return an `Err(String)` unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}

pub trait Prop: Sync + 'static {
    const ID: &'static str;
    /// How cases are made and when one counts as non-trivial.
    const RULE: &'static str;
    /// Cases per worker in the quick tier; there are always `WORKERS` workers.
    const QUICK: u64;
    /// Factor for the thorough tier.
    const THOROUGH_FACTOR: u64 = 25;
    type Case: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static;

    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, cov: &mut Cov) -> Outcome;
}

pub const WORKERS: u64 = 8;
const VERIF: &str = "/verif";

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn run_check<P: Prop>(case: &P::Case, cov: &mut Cov) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| P::check(case, cov))) {
        Ok(r) => r,
        Err(e) => {
            let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default()
            });
            Err(format!("panic: {msg}"))
        }
    }
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn rng_for(id: &str, seed: u64, worker: u64) -> TestRng {
    let mut s = fnv(&[id.as_bytes(), &seed.to_le_bytes(), &worker.to_le_bytes()]);
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

fn case_hash<C: Hash>(c: &C) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    c.hash(&mut h);
    let mut x = h.0;
    splitmix(&mut x)
}

#[derive(Default)]
struct Tally {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    rejected: u64,
    /// The longest any case took, and its number.
    slowest: (Duration, u64),
}

struct Failure<C> {
    case: C,
    msg: String,
    origin: String,
    shrinks: u64,
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let cut = s.char_indices().take_while(|(i, _)| *i < 1500).count();
        serde_json::Value::String(format!(
            "{}... ({} bytes)",
            s.chars().take(cut).collect::<String>(),
            s.len()
        ))
    }
}

/// The next case; None if the generator gives up on it.
fn new_tree<P: Prop>(s: &BoxedStrategy<P::Case>, r: &mut TestRunner) -> Option<Box<dyn ValueTree<Value = P::Case>>> {
    catch_unwind(AssertUnwindSafe(|| s.new_tree(r))).ok()?.ok()
}

fn shrink<P: Prop>(
    mut tree: Box<dyn ValueTree<Value = P::Case>>,
    first: P::Case,
    msg: String,
) -> (P::Case, String, u64) {
    let (mut best, mut best_msg) = (first, msg);
    let start = Instant::now();
    let mut steps = 0u64;
    'outer: while steps < 20_000 && start.elapsed() < Duration::from_secs(40) {
        if !tree.simplify() {
            break;
        }
        loop {
            steps += 1;
            let c = tree.current();
            match run_check::<P>(&c, &mut Cov::default()) {
                Err(m) => {
                    best = c;
                    best_msg = m;
                    break;
                }
                Ok(()) => {
                    if steps >= 20_000
                        || start.elapsed() >= Duration::from_secs(40)
                        || !tree.complicate()
                    {
                        break 'outer;
                    }
                }
            }
        }
    }
    (best, best_msg, steps)
}

fn write_replay<P: Prop>(f: &Failure<P::Case>, seed: u64) -> PathBuf {
    let dir = Path::new(VERIF).join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", P::ID, case_hash(&f.case)));
    let v = serde_json::json!({
        "property": P::ID,
        "seed": seed,
        "found_by": f.origin,
        "shrink_steps": f.shrinks,
        "message": f.msg,
        "case": f.case,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
    path
}

fn known_findings(id: &str) -> Vec<(u64, String)> {
    // Lines: "known: property=<id> case=<hash> <what fails>"
    let Ok(s) = std::fs::read_to_string(Path::new(VERIF).join("known_findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (pid, rest) = rest.split_once(' ')?;
            let rest = rest.strip_prefix("case=")?;
            let (h, what) = rest.split_once(' ')?;
            (pid == id).then_some(())?;
            Some((u64::from_str_radix(h, 16).ok()?, what.to_string()))
        })
        .collect()
}

pub fn main<P: Prop>() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = info.payload();
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{m}{loc}")));
    }));

    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let scale = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .unwrap_or(1.0);
    let per_worker = ((match tier {
        Tier::Quick => P::QUICK,
        Tier::Thorough => P::QUICK * P::THOROUGH_FACTOR,
    }) as f64
        * scale) as u64;

    match (args.get(1).map(String::as_str), args.get(2)) {
        // One case, in this process.
        (Some("--one"), Some(file)) => {
            if let Err(m) = run_check::<P>(&read_case::<P>(file), &mut Cov::default()) {
                println!("{m}");
                std::process::exit(1);
            }
            return;
        }
        (Some("--replay"), Some(file)) => {
            match isolated(Path::new(file), Duration::from_secs(120)) {
                None => println!("replay {file}: holds"),
                Some(m) => {
                    println!("replay {file}: {m}");
                    println!("VIOLATION property={} replay={file}", P::ID);
                    std::process::exit(1);
                }
            }
            return;
        }
        (Some("--search"), Some(file)) => {
            let f = Slots::map(file);
            search::<P>(tier, seed, per_worker, &f)
        }
        _ => supervise::<P>(tier, seed),
    }
}

fn read_case<P: Prop>(file: &str) -> P::Case {
    let s = std::fs::read_to_string(file).expect("cannot read replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("bad replay file");
    serde_json::from_value(v["case"].clone()).expect("bad case")
}

fn own_exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// The processor time the process has used (of its thread of that name, if one
/// is given), and whether any of it is running or ready to run. A machine under
/// load holds up every process, so that a case is called endless by the work it
/// has done, not by the clock alone.
fn worked(pid: u32, thread: Option<&str>) -> (Duration, bool) {
    let (mut ticks, mut ready) = (0u64, false);
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let (Some(a), Some(z)) = (stat.find('('), stat.rfind(')')) else { continue };
        if thread.is_some_and(|n| n != &stat[a + 1..z]) {
            continue;
        }
        let f: Vec<&str> = stat[z + 1..].split_whitespace().collect();
        ready |= f.first() == Some(&"R");
        ticks += [11, 12].iter().filter_map(|i| f.get(*i)?.parse::<u64>().ok()).sum::<u64>();
    }
    (Duration::from_millis(ticks * 10), ready)
}

/// Run the case in a process of its own: what fails, including a crash of the
/// process and not coming to an end.
fn isolated(file: &Path, limit: Duration) -> Option<String> {
    let out = std::env::temp_dir().join(format!("vp-out-{}", std::process::id()));
    let o = std::fs::File::create(&out).expect("scratch file");
    let e = o.try_clone().expect("scratch file");
    let mut child = std::process::Command::new(own_exe())
        .arg("--one")
        .arg(file)
        .stdout(o)
        .stderr(e)
        .spawn()
        .expect("cannot start a process");
    let start = Instant::now();
    let mut idle = 0;
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if start.elapsed() > limit && {
                let (used, ready) = worked(child.id(), None);
                idle = if ready { 0 } else { idle + 1 };
                used > limit * 3 / 4 || idle > 250 || start.elapsed() > limit * 3
            } =>
            {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 50 { 500 } else { 20_000 })),
        }
    };
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let text = text.trim().chars().take(2000).collect::<String>();
    match status {
        None => Some(format!("no end after {limit:?}")),
        Some(s) if s.success() => None,
        Some(s) if s.code() == Some(1) => Some(text),
        Some(s) => Some(format!("the process died ({s}): {text}")),
    }
}

/// Runs the search in a child process, so that a crash of the code under test
/// (abort, stack overflow, memory exhausted) or an endless loop is a finding
/// like any other.
fn supervise<P: Prop>(tier: Tier, seed: u64) {
    const STALL: Duration = Duration::from_secs(60);
    // (time worked, polls at which it was not ready to run), from 5 s on
    type Still = Option<(Duration, u32)>;
    let path = std::env::temp_dir().join(format!("vp-progress-{}-{}", P::ID, std::process::id()));
    std::fs::write(&path, [0u8; 64 * (WORKERS as usize + 1)]).expect("progress file");
    let slots = || -> Vec<u64> {
        let b = std::fs::read(&path).unwrap_or_default();
        b.chunks_exact(64).map(|c| u64::from_le_bytes(c[..8].try_into().unwrap_or_default())).collect()
    };
    let start = Instant::now();
    let mut child = std::process::Command::new(own_exe())
        .arg("--search")
        .arg(&path)
        .spawn()
        .expect("cannot start a process");
    let mut last = slots();
    let mut since = vec![Instant::now(); last.len()];
    let mut still: Vec<Still> = vec![None; last.len()];
    let mut stalled = None;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        for (i, v) in slots().into_iter().enumerate() {
            if v != last[i] {
                last[i] = v;
                since[i] = Instant::now();
                still[i] = None;
            } else if v != 0 && v != DONE && since[i].elapsed() > STALL / 12 {
                let name = (i < WORKERS as usize).then(|| format!("worker-{i}"));
                let (used, ready) = worked(child.id(), name.as_deref());
                let (from, idle) = still[i].get_or_insert((used, 0));
                *idle = if ready { 0 } else { *idle + 1 };
                let looping = used.saturating_sub(*from) > STALL * 3 / 4;
                let blocked = *idle > 250 && since[i].elapsed() > STALL * 2;
                if since[i].elapsed() > STALL && (looping || blocked) || since[i].elapsed() > STALL * 4 {
                    stalled = Some(i);
                }
            }
        }
        if stalled.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let at = slots();
    let _ = std::fs::remove_file(&path);
    if let Some(c) = status.and_then(|s| s.code()).filter(|c| (0..=2).contains(c)) {
        std::process::exit(c);
    }
    // Which of the cases that were running is to blame?
    let what = status.map_or("the search came to no end".to_string(), |s| format!("the search died ({s})"));
    println!("{}: {what}, looking for the case", P::ID);
    let scratch = std::env::temp_dir().join(format!("vp-case-{}-{}.json", P::ID, std::process::id()));
    let try_case = |c: &P::Case, limit: u64| {
        let v = serde_json::json!({ "case": c });
        let _ = std::fs::write(&scratch, v.to_string());
        isolated(&scratch, Duration::from_secs(limit))
    };
    let mut found: Option<Failure<P::Case>> = None;
    let mut order: Vec<usize> = (0..at.len()).filter(|i| at[*i] != 0 && at[*i] != DONE).collect();
    order.sort_by_key(|i| Some(*i) != stalled);
    for w in order {
        let n = at[w] - 1;
        if w == WORKERS as usize {
            let Some(case) = regression_cases::<P>().into_iter().nth(n as usize) else { continue };
            if let Some(msg) = try_case(&case, 60) {
                found = Some(Failure { case, msg, origin: format!("regression case {}", n + 1), shrinks: 0 });
                break;
            }
            continue;
        }
        let mut runner = runner_for::<P>(seed, w as u64);
        let strat = P::strategy(tier);
        for _ in 0..n {
            let _ = new_tree::<P>(&strat, &mut runner);
        }
        let Some(mut tree) = new_tree::<P>(&strat, &mut runner) else { continue };
        let Some(msg) = try_case(&tree.current(), 60) else { continue };
        let mut f = Failure { case: tree.current(), msg, origin: format!("worker {w} case {n}"), shrinks: 0 };
        let begun = Instant::now();
        let slow = f.msg.starts_with("no end");
        'outer: while tree.simplify() {
            loop {
                if begun.elapsed() > Duration::from_secs(90) {
                    break 'outer;
                }
                f.shrinks += 1;
                match try_case(&tree.current(), if slow { 10 } else { 20 }) {
                    Some(m) => {
                        f.case = tree.current();
                        f.msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            break 'outer;
                        }
                    }
                }
            }
        }
        found = Some(f);
        break;
    }
    let _ = std::fs::remove_file(&scratch);
    let done: u64 = at[..WORKERS as usize].iter().filter(|v| **v != DONE).sum();
    let Some(f) = found else {
        println!("{}: no single case reproduces it", P::ID);
        std::process::exit(2);
    };
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done.max(1),
            "distinct_nontrivial": 0,
            "rule": P::RULE,
            "samples": [clip(serde_json::to_value(&f.case).unwrap_or_default())],
        },
        "assumptions": ["the search ended early because the process died or stood still"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": 1,
    });
    let _ = std::fs::create_dir_all(Path::new(VERIF).join("evidence"));
    let _ = std::fs::write(
        Path::new(VERIF).join("evidence").join(format!("{}.json", P::ID)),
        serde_json::to_string_pretty(&ev).unwrap_or_default(),
    );
    report::<P>(&f, seed);
}

const DONE: u64 = u64::MAX;

/// The progress file as shared memory: it outlives the searching process.
struct Slots(&'static [AtomicU64]);

impl Slots {
    fn map(file: &str) -> Self {
        use std::{ffi::c_void, os::fd::AsRawFd};
        extern "C" {
            fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
        }
        let n = WORKERS as usize + 1;
        let f = std::fs::File::options().read(true).write(true).open(file).expect("progress file");
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), n * 64, 3, 1, f.as_raw_fd(), 0) };
        assert!(!p.is_null() && p as isize != -1, "cannot map the progress file");
        // Page aligned, n * 64 bytes long, mapped for the rest of the process.
        Self(unsafe { std::slice::from_raw_parts(p as *const AtomicU64, n * 8) })
    }
}

fn runner_for<P: Prop>(seed: u64, w: u64) -> TestRunner {
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            // Counted over the whole search.
            max_local_rejects: u32::MAX,
            max_global_rejects: u32::MAX,
            ..Config::default()
        },
        rng_for(P::ID, seed, w),
    )
}

/// Saved inputs: shrunk cases of defects found earlier.
fn regression_cases<P: Prop>() -> Vec<P::Case> {
    let reg = Path::new(VERIF).join("regress").join(format!("{}.jsonl", P::ID));
    let Ok(s) = std::fs::read_to_string(&reg) else { return vec![] };
    s.lines()
        .enumerate()
        .filter(|(_, l)| !l.trim().is_empty())
        .map(|(i, line)| match serde_json::from_str(line) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("{}:{}: unreadable regression case: {e}", reg.display(), i + 1);
                std::process::exit(2);
            }
        })
        .collect()
}

fn report<P: Prop>(f: &Failure<P::Case>, seed: u64) -> ! {
    let p = write_replay::<P>(f, seed);
    println!("failed ({}, {} shrink steps): {}", f.origin, f.shrinks, f.msg);
    println!("VIOLATION property={} replay={}", P::ID, p.display());
    std::process::exit(1);
}

fn search<P: Prop>(tier: Tier, seed: u64, per_worker: u64, slots: &Slots) {
    let at = |w: u64, v: u64| slots.0[w as usize * 8].store(v.to_le(), Ordering::Relaxed);
    let start = Instant::now();
    let known = known_findings(P::ID);
    let known_hits: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let failure: Mutex<Option<Failure<P::Case>>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Tally::default());
    let mut regressions = 0u64;

    for (i, case) in regression_cases::<P>().into_iter().enumerate() {
        regressions += 1;
        at(WORKERS, i as u64 + 1);
        if let Err(msg) = run_check::<P>(&case, &mut Cov::default()) {
            if known.iter().any(|(h, _)| *h == case_hash(&case)) {
                known_hits.lock().unwrap().insert(case_hash(&case));
                continue;
            }
            *failure.lock().unwrap() = Some(Failure {
                case,
                msg,
                origin: format!("regression case {}", i + 1),
                shrinks: 0,
            });
            stop.store(true, Ordering::SeqCst);
            break;
        }
    }
    at(WORKERS, DONE);

    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (failure, stop, total, known, known_hits, at) =
                (&failure, &stop, &total, &known, &known_hits, &at);
            let work = move || {
                let mut runner = runner_for::<P>(seed, w);
                let strat = P::strategy(tier);
                let mut t = Tally::default();
                for i in 0..per_worker {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let Some(tree) = new_tree::<P>(&strat, &mut runner) else {
                        t.rejected += 1;
                        continue;
                    };
                    let case = tree.current();
                    let mut cov = Cov::default();
                    at(w, i + 1);
                    let began = Instant::now();
                    let r = run_check::<P>(&case, &mut cov);
                    t.slowest = t.slowest.max((began.elapsed(), i));
                    t.evals += 1;
                    for l in cov.labels {
                        *t.labels.entry(l).or_default() += 1;
                    }
                    if cov.nontrivial {
                        t.distinct.insert(case_hash(&case));
                        if t.samples.is_empty() || (w == 0 && t.samples.len() < 4 && i % 97 == 0) {
                            if let Ok(v) = serde_json::to_value(&case) {
                                t.samples.push(clip(v));
                            }
                        }
                    }
                    if let Err(msg) = r {
                        let (case, msg, shrinks) = shrink::<P>(tree, case, msg);
                        let h = case_hash(&case);
                        if known.iter().any(|(k, _)| *k == h) {
                            known_hits.lock().unwrap().insert(h);
                            continue;
                        }
                        let mut f = failure.lock().unwrap();
                        if f.is_none() {
                            *f = Some(Failure {
                                case,
                                msg,
                                origin: format!("worker {w} case {i}"),
                                shrinks,
                            });
                        }
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                }
                at(w, DONE);
                let mut tot = total.lock().unwrap();
                tot.evals += t.evals;
                tot.rejected += t.rejected;
                tot.slowest = tot.slowest.max(t.slowest);
                tot.distinct.extend(t.distinct);
                for (k, v) in t.labels {
                    *tot.labels.entry(k).or_default() += v;
                }
                tot.samples.extend(t.samples);
            };
            std::thread::Builder::new()
                .name(format!("worker-{w}"))
                .spawn_scoped(sc, work)
                .expect("cannot start a thread");
        }
    });

    let failure = failure.into_inner().unwrap();
    let tot = total.into_inner().unwrap();
    let mut samples = tot.samples;
    samples.truncate(8);
    let wall = start.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evals,
            "distinct_nontrivial": tot.distinct.len(),
            "rule": P::RULE,
            "samples": samples,
            "classes": tot.labels,
            "regression_cases_replayed": regressions,
            "generator_rejections": tot.rejected,
        },
        "assumptions": [
            "cases are a pure function of VERIF_SEED and the generators; absence is not established beyond the cases run",
            "/repo is compiled with overflow checks and debug assertions on, optimisation level 2"
        ],
        "wall_s": wall,
        "violations": failure.is_some() as u64,
    });
    let evdir = Path::new(VERIF).join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evp = evdir.join(format!("{}.json", P::ID));
    if let Err(e) = std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write {}: {e}", evp.display());
        std::process::exit(2);
    }
    for (h, what) in &known {
        if known_hits.lock().unwrap().contains(h) {
            println!("KNOWN-FINDING: property={} {what}", P::ID);
        }
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} regression cases, {:.1}s, slowest case {:.1}s, classes {:?}",
        P::ID,
        tot.evals,
        tot.distinct.len(),
        regressions,
        wall,
        tot.slowest.0.as_secs_f64(),
        tot.labels
    );
    if let Some(f) = failure {
        report::<P>(&f, seed);
    }
}

/// `boxed()` without importing `Strategy` everywhere.
pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value>
where
    S::Value: Debug,
{
    s.boxed()
}
