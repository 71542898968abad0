//! C09: locally typical keeps the tokens nearest the entropy until mass exceeds p.
use harness::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    p: Sel,
    min_keep: usize,
    lists: Vec<LIn>,
}

/// Scores and masses in the order of `r.sorted`.
fn scores(r: &Ref) -> (Vec<f64>, f64) {
    let n = r.n();
    let h: f64 = r.p.iter().filter(|p| **p > 0.0).map(|p| -p * p.ln()).sum();
    let s = r
        .p
        .iter()
        // Below the f32 range probabilities round to zero or lose digits:
        // those tokens are all equally untypical here.
        .map(|p| if *p < 1e-37 { 1e3 } else { (-p.ln() - h).abs() })
        .collect();
    // ln(prob) inherits the relative error of prob; the entropy sums n terms.
    (s, 3e-5 + 1.5e-7 * n as f64 * (1.0 + h))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C09";
    const RULE: &'static str = "p arbitrary or at (and next to) a prefix mass in typicality order of the first list; one to three lists, one sampler object, banned tokens included. Validity predicate: some order compatible with the scores (up to rounding) has the survivors as its shortest sufficient prefix. Non-trivial: p decided the cut (more than max(1, min_keep) kept, fewer than all).";
    const QUICK: u64 = 40_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (gen::sel(), prop_oneof![3 => 0usize..4, 2 => gen::count()], gen::seq(gen::lin(2), 1..4, 4..80, 300))
            .prop_map(|(p, min_keep, lists)| Case { p, min_keep, lists })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let first = Ref::for_spec(&c.lists[0].build(), &c.lists[0]);
        let p = match c.p {
            Sel::Val(F(p)) => p,
            Sel::At(i, u) if first.n() > 0 && first.defined() => {
                let (s, _) = scores(&first);
                let mut o: Vec<usize> = (0..first.n()).collect();
                o.sort_by(|a, b| s[*a].total_cmp(&s[*b]));
                let m: f64 = o[..=i as usize % o.len()].iter().map(|i| first.p[*i]).sum();
                ulps(m as f32, u as i32)
            }
            Sel::At(..) => 0.5,
        };
        let mk = c.min_keep;
        let mut s = SampleLocallyTypical::default().p(p).min_keep(mk);
        for (li, spec) in gen::turns(&c.lists, |l| l).enumerate() {
            let mut l = spec.build();
            let before = l.to_vec();
            let r = Ref::for_spec(&l, spec);
            let n = r.n();
            let ctx = |e: String| format!("list {li}, p={p:?} min_keep={mk}: {e}");
            let res = s.sample(&mut (), &mut l).map(|_| ()).map_err(|e| e.to_string());
            if !r.defined() {
                check_subset(&before, &l).map_err(ctx)?;
                continue;
            }
            res.map_err(ctx)?;
            check_subset(&before, &l).map_err(ctx)?;
            check_flags(&l).map_err(ctx)?;
            let k = l.len();
            let need = mk.max(1).min(n);
            ensure!(k >= need, "list {li}: p={p:?} min_keep={mk}: {k} of {n} kept");
            cov.label_if(r.sorted.last() == Some(&f32::NEG_INFINITY), "banned tokens");
            if n == 0 || p.is_nan() {
                continue;
            }
            cov.nontrivial_if(k < n && k > need);
            cov.label_if(k == need && need > 1 && need < n, "min_keep decides");
            cov.label_if(k == n && n > 1, "all kept");
            cov.label_if(r.exact && k < n, "exact mass regime");
            cov.label_if(k < n && !l.iter().any(|x| x.logit == r.sorted[0]), "best token dropped");

            let (sc, tol) = scores(&r);
            // Survivors per distinct logit; equal logits are interchangeable.
            let mut left: HashMap<u32, usize> = HashMap::new();
            for x in l.iter() {
                *left.entry((x.logit + 0.0).to_bits()).or_default() += 1;
            }
            let (mut worst_in, mut best_out) = (f64::NEG_INFINITY, f64::INFINITY);
            let mut mass = 0.0;
            let mut inside = vec![];
            for i in 0..n {
                let e = left.get_mut(&(r.sorted[i] + 0.0).to_bits());
                match e {
                    Some(c) if *c > 0 => {
                        *c -= 1;
                        worst_in = worst_in.max(sc[i]);
                        mass += r.p[i];
                        inside.push(i);
                    }
                    _ => best_out = best_out.min(sc[i]),
                }
            }
            ensure!(
                worst_in <= best_out + 2.0 * tol,
                "list {li}: p={p:?} min_keep={mk}: kept a token at distance {worst_in} from the entropy, dropped one at {best_out}"
            );
            let (p, mtol) = (p as f64, r.tol_cum());
            if k < n {
                ensure!(
                    mass > p - mtol || (mtol == 0.0 && mass > p),
                    "list {li}: p={p} min_keep={mk}: {k} of {n} kept with mass {mass}, which does not exceed p"
                );
                if mtol == 0.0 {
                    ensure!(mass > p, "list {li}: p={p} min_keep={mk}: {k} of {n} kept with mass {mass}, which does not exceed p");
                }
            }
            if k > need {
                // The last of the prefix is some survivor of (nearly) the worst score.
                let last = inside
                    .iter()
                    .filter(|i| sc[**i] >= worst_in - 2.0 * tol)
                    .map(|i| r.p[*i])
                    .fold(0.0, f64::max);
                ensure!(
                    mass - last <= p + mtol,
                    "list {li}: p={p} min_keep={mk}: {k} of {n} kept with mass {mass} although without the last {} exceed p",
                    mass - last
                );
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
