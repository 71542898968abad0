//! C14: sequence repetition penalises exactly the continuations of seen sequences.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum H {
    /// Tokens from a small alphabet.
    Toks(Vec<u8>),
    /// A motif repeated with one token replaced or inserted here and there.
    Motif { motif: Vec<u8>, times: u8, edits: Vec<(u16, u8, bool)>, tail: u8 },
    /// A long random sequence, `follow`, a few other tokens, the sequence again.
    Long { seed: u64, len: u16, follow: u8, between: u8 },
    /// A motif and what followed it, then many other tokens, then the motif.
    Far { motif: Vec<u8>, follow: u8, gap: u16, seed: u64 },
}

impl H {
    fn expand(&self) -> Vec<u8> {
        match self {
            H::Toks(v) => v.clone(),
            H::Motif { motif, times, edits, tail } => {
                let mut v: Vec<u8> = vec![];
                for _ in 0..*times {
                    v.extend(motif);
                }
                v.extend(motif.iter().take(*tail as usize));
                for (at, t, insert) in edits {
                    if v.is_empty() {
                        break;
                    }
                    let at = *at as usize % v.len();
                    if *insert {
                        v.insert(at, *t)
                    } else {
                        v[at] = *t
                    }
                }
                v
            }
            H::Long { seed, len, follow, between } => {
                let mut s = *seed;
                let mut next = || (harness::run::splitmix(&mut s) >> 32) as u8;
                let mut v: Vec<u8> = (0..*len).map(|_| next()).collect();
                let again = v.clone();
                v.push(*follow);
                v.extend((0..*between).map(|_| next()));
                v.extend(again);
                v
            }
            H::Far { motif, follow, gap, seed } => {
                let mut s = *seed;
                let mut v = motif.clone();
                v.push(*follow);
                v.extend((0..*gap).map(|_| (harness::run::splitmix(&mut s) >> 32) as u8));
                v.extend(motif);
                v
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    flat: F,
    stack: F,
    min_length: usize,
    tolerance: usize,
    max_merge: usize,
    last_n: usize,
    near: Option<i8>,
    list: LIn,
    hists: Vec<H>,
}

/// Longest match per continuation token, match counted with its continuation.
/// `liberal` also counts matches that overlap the ending so far that the
/// implementation need not look at them.
fn reference(t: &[u32], min_len: usize, tol: usize, merge: usize, liberal: bool) -> HashMap<u32, usize> {
    let n_t = t.len();
    let mut out = HashMap::new();
    if n_t < min_len.saturating_mul(2) {
        return out;
    }
    for start in 0..n_t {
        let rest = n_t - start;
        if !liberal && rest <= min_len {
            break;
        }
        let longest = if liberal { rest - 1 } else { (n_t - min_len).min(rest - 1) };
        for n in min_len..=longest {
            let ending = &t[n_t - n..];
            if t[start] != ending[0] {
                continue;
            }
            // The first token matches; walk on, skipping at most `tol` times.
            let mut pos = start;
            let mut skips = tol;
            let mut window = 1;
            let mut matched_last = false;
            'e: for e in ending {
                let mut left = window;
                loop {
                    if left == 0 {
                        // This token of the ending is skipped.
                        if skips == 0 {
                            matched_last = false;
                            break 'e;
                        }
                        skips -= 1;
                        window = merge.max(1);
                        matched_last = false;
                        break;
                    }
                    if pos == n_t {
                        matched_last = false;
                        break 'e;
                    }
                    left -= 1;
                    pos += 1;
                    if t[pos - 1] == *e {
                        window = 1;
                        matched_last = true;
                        break;
                    }
                }
            }
            if !matched_last || pos >= n_t {
                continue;
            }
            if !liberal && pos > n_t - 2 {
                continue;
            }
            let len = pos - start + 1;
            let e = out.entry(t[pos]).or_insert(0usize);
            *e = (*e).max(len);
        }
    }
    out
}

struct P;
impl Prop for P {
    const ID: &'static str = "C14";
    const RULE: &'static str = "Histories over a small alphabet and mutated repetitions of a motif, any parameters, one to three histories with one sampler object; reference matcher written from the documentation. Matches that overlap the ending itself may be counted or not. Non-trivial: the reference penalises at least one token of the list and leaves another alone.";
    const QUICK: u64 = 200_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let h = prop_oneof![
            300 => vec(0u8..4, 0..24).prop_map(H::Toks),
            200 => vec(0u8..8, 0..40).prop_map(H::Toks),
            400 => (vec(0u8..9, 1..9), 1u8..5, vec((any::<u16>(), 0u8..12, any::<bool>()), 0..5), 0u8..9)
                .prop_map(|(motif, times, edits, tail)| H::Motif { motif, times, edits, tail }),
            1 => (any::<u64>(), prop_oneof![3 => 20u16..100, 1 => 100u16..400], any::<u8>(), 0u8..9)
                .prop_map(|(seed, len, follow, between)| H::Long { seed, len, follow, between }),
            2 => (
                vec(any::<u8>(), 2..9),
                any::<u8>(),
                prop_oneof![3 => 50u32..1000, 2 => 1000u32..2500, 1 => 2500u32..4500, 1 => dict::sizes(50, 5000)],
                any::<u64>(),
            )
                .prop_map(|(motif, follow, gap, seed)| H::Far { motif, follow, gap: gap as u16, seed }),
        ];
        let list = prop_oneof![
            3 => (vec(gen::value_plain(), 4..14), gen::ids(), gen::prep(), 0u8..6, gen::again())
                .prop_map(|(v, ids, prep, stale, again)| LIn { vals: Vals::Explicit(v), ids, prep, stale, again }),
            1 => gen::lin_short(),
        ];
        (
            (gen::amount(), gen::amount()),
            prop_oneof![6 => 2usize..5, 1 => 0usize..9],
            prop_oneof![2 => Just(0usize), 2 => 0usize..4],
            prop_oneof![3 => 0usize..3, 1 => 0usize..6],
            prop_oneof![6 => Just(64usize), 4 => 0usize..40, 1 => 64usize..1000, 1 => Just(usize::MAX), 2 => gen::last_n()],
            gen::opt((-3i8..3).boxed()),
            list,
            vec(h, 1..4),
        )
            .prop_map(|((flat, stack), min_length, tolerance, max_merge, last_n, near, list, hists)| Case {
                flat, stack, min_length, tolerance, max_merge, last_n, near, list, hists,
            })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let (flat, stack) = (c.flat.0, c.stack.0);
        let (ml, last_n) = (
            c.min_length,
            match c.near {
                Some(d) => (c.hists[0].expand().len() as i64 + d as i64).max(0) as usize,
                None => c.last_n,
            },
        );
        let mut s = SampleSeqRepetition::default()
            .flat_penalty(flat)
            .stacking_penalty(stack)
            .min_length(ml)
            .tolerance(c.tolerance)
            .max_merge(c.max_merge)
            .last_n(last_n);
        let list = c.list.build();
        let mut ids: Vec<u32> = list.iter().map(|x| x.token_id).collect();
        ids.sort_unstable();
        for (i, hist) in gen::cycled(&c.hists, c.list.again, |h| h.expand().len().pow(2)).enumerate() {
            let h: Vec<u32> = hist.expand().iter().map(|t| gen::resolve(*t as u16, &ids)).collect();
            let mut l = list.clone();
            let before = l.to_vec();
            let mut res = res::simple(None, Some(h.clone()));
            s.sample(&mut res, &mut l).map_err(|e| format!("step {i}: {e}"))?;
            let on = (flat != 0.0 || stack != 0.0) && ml >= 2 && last_n >= ml;
            let win = &h[h.len() - last_n.min(h.len())..];
            let (must, may) = if on {
                (
                    reference(win, ml, c.tolerance, c.max_merge, false),
                    reference(win, ml, c.tolerance, c.max_merge, true),
                )
            } else {
                Default::default()
            };
            let what = || {
                format!(
                    "history {h:?}, last_n {last_n}, min_length {ml}, tolerance {}, max_merge {}, flat {flat:?}, stacking {stack:?}",
                    c.tolerance, c.max_merge
                )
            };
            ensure!(l.len() == before.len(), "step {i}: {} tokens became {}", before.len(), l.len());
            let mut after: HashMap<u32, f32> = l.iter().map(|x| (x.token_id, x.logit)).collect();
            let (mut hit, mut miss) = (false, false);
            for b in &before {
                let Some(a) = after.remove(&b.token_id) else {
                    return Err(format!("step {i}: token {} is gone", b.token_id));
                };
                let lo = must.get(&b.token_id).copied();
                let Some(hi) = may.get(&b.token_id).copied() else {
                    miss = true;
                    ensure!(
                        a.to_bits() == b.logit.to_bits(),
                        "step {i}: {}: token {} continues no match but went from {:?} to {a:?}",
                        what(), b.token_id, b.logit
                    );
                    continue;
                };
                hit |= lo.is_some();
                cov.label_if(lo != Some(hi), "overlap decides");
                let fits = |n: usize| {
                    let sp = n as f64 * stack as f64;
                    let want = b.logit as f64 - (sp + flat as f64);
                    let scale = sp.abs() + (flat as f64).abs() + if b.logit.is_finite() { b.logit.abs() as f64 } else { 0.0 };
                    close(a, want, 1e-6, scale)
                };
                let ok = (lo.unwrap_or(1)..=hi).any(fits) || (lo.is_none() && a.to_bits() == b.logit.to_bits());
                ensure!(
                    ok,
                    "step {i}: {}: token {} continues a match of length {lo:?} (with overlaps {hi}) and went from {:?} to {a:?}",
                    what(), b.token_id, b.logit
                );
            }
            check_flags(&l).map_err(|e| format!("step {i}: {e}"))?;
            ensure!(res::history(&res).as_ref() == Some(&h), "step {i}: the history changed");
            cov.nontrivial_if(hit && miss);
            if hit {
                cov.label_if(c.tolerance == 0, "exact match");
                cov.label_if(c.tolerance > 0 && may != reference(win, ml, 0, 1, true), "tolerance decides");
                cov.label_if(
                    c.max_merge > 1 && may != reference(win, ml, c.tolerance, 1, true),
                    "max_merge decides",
                );
                cov.label_if(win.len() < h.len(), "window cuts history");
            }
            cov.label_if(!on, "disabled");
            cov.label_if(hit && win.len() > 1000, "more than 1000 tokens in the window");
            cov.label_if(may.values().any(|n| *n > 255), "match of more than 255 tokens");
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
