//! C26: options read back as set, affect nothing else and drive the sampler.
use harness::{custom::err_text, opts::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Set(Key, V),
    /// A value of the option's own type.
    SetTyped(Key, u64, D, bool, String),
    Get(Key),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Case {
    Ops { t: Target, ops: Vec<Op> },
    /// Options set in this order against construction, on these lists.
    Behave { w: Which, vals: Vec<V>, order: u64, lists: Vec<LIn>, hist: Hist, seed: u64,
        /// After each list: an option and its new value (as integer or float).
        #[serde(default)]
        edits: Vec<Option<(u8, u64, F)>> },
}

fn run_ops(t: &Target, ops: &[Op], cov: &mut Cov) -> Outcome {
    let mut o = t.obj();
    let table = t.table();
    if let Some(w) = t.which() {
        // What is listed is what there is.
        let mut keys: Vec<_> = o.keys();
        keys.sort_by_key(|k| k.0);
        let mut want = documented(w).to_vec();
        want.sort_by_key(|k| k.0);
        ensure!(keys == want, "{w:?} lists {keys:?}, documented are {want:?}");
        for l in o.listed() {
            let mut l: Vec<_> = l;
            l.sort_by_key(|k| k.0);
            ensure!(
                l.len() == want.len() && l.iter().zip(&want).all(|(a, b)| (a.0, a.1) == *b && a.2 == Some(b.1)),
                "{w:?} gives access to {l:?}, documented are {want:?}"
            );
        }
        let name = o.name();
        for other in ALL {
            if other != w {
                let n = Target::BuiltIn(other).obj().name();
                ensure!(n != name, "{w:?} and {other:?} are both called {n:?}");
            }
        }
    }
    let mut m = Model::read(t, &*o)?;
    if let Target::Built(w, v) = t {
        for (i, (k, _)) in documented(*w).iter().enumerate() {
            ensure!(m.vals[i].as_ref() == Some(&v[i]), "{w:?} built with {k} = {:?} reads {:?}", v[i], m.vals[i]);
        }
    }
    let (mut sets, mut fails) = (0, 0);
    for (step, op) in ops.iter().enumerate() {
        let (key, v) = match op {
            Op::Get(k) => {
                let k = k.text(&table);
                let got = o.get(&k);
                let want = m.find(&k).and_then(|i| m.vals[i].clone());
                match (&got, &want) {
                    (Ok(g), Some(w)) if g == w => (),
                    (Err(_), None) => (),
                    _ => return Err(format!("step {step}: option {k:?} reads {got:?}, should be {want:?}")),
                }
                continue;
            }
            Op::Set(k, v) => (k.text(&table), v.clone()),
            Op::SetTyped(k, u, d, b, s) => {
                let k = k.text(&table);
                let v = match m.find(&k).map(|i| table[i].1) {
                    Some(Ty::U) | None => V::U(*u),
                    Some(Ty::F) => V::F(*d),
                    Some(Ty::B) => V::B(*b),
                    Some(Ty::S) => V::S(s.clone()),
                };
                (k, v)
            }
        };
        let r = o.set(&key, &v);
        match (m.may_set(&key, &v), &r) {
            (Allowed::Fails, Err(_)) => fails += 1,
            (Allowed::Sets(i, v), Ok(())) => {
                sets += 1;
                cov.label_if(table[i].0 != key, "by prefix");
                m.put(i, v)
            }
            (Allowed::Either(i, v), r) => {
                if r.is_ok() {
                    m.put(i, v)
                }
            }
            (a, r) => return Err(format!("step {step}: setting {key:?} to {v:?}: {r:?}, expected {a:?}")),
        }
        m.agrees(&*o).map_err(|e| format!("step {step}: after setting {key:?} to {v:?} ({r:?}): {e}"))?;
    }
    cov.label_if(t.which().is_none(), "caller's table");
    cov.nontrivial_if(sets > 0 && fails > 0 && table.len() > 1);
    Ok(())
}

/// All options as they read.
fn read_all(s: &Buildable, doc: &[(&'static str, Ty)]) -> Result<Vec<V>, String> {
    doc.iter().map(|(k, _)| s.get_option(k).map(V::from_option).map_err(|e| e.to_string())).collect()
}

fn behave(w: Which, vals: &[V], order: u64, lists: &[LIn], hist: &Hist, seed: u64, edits: &[Option<(u8, u64, F)>], cov: &mut Cov) -> Outcome {
    let mut vals = vals.to_vec();
    let doc = documented(w);
    let mut by_options = fresh(w);
    let mut idx: Vec<usize> = (0..doc.len()).collect();
    let mut s = order;
    for i in (1..idx.len()).rev() {
        idx.swap(i, harness::run::splitmix(&mut s) as usize % (i + 1));
    }
    // Setting tau sets mu, so mu has to come later.
    if let (Some(t), Some(m)) = (
        idx.iter().position(|i| doc[*i].0 == "tau"),
        idx.iter().position(|i| doc[*i].0 == "mu"),
    ) {
        if m < t {
            idx.swap(m, t);
        }
    }
    for i in idx {
        by_options.set_option(doc[i].0, vals[i].option()).map_err(|e| format!("setting {}: {e}", doc[i].0))?;
    }
    let mut all = [by_options, build_with(w, &vals, false), build_with(w, &vals, true)];
    let names = ["options", "the constructor", "builder methods"];
    let mut res: Vec<_> = (0..3).map(|_| res::Counting::new(Some(seed), None)).collect();
    for (step, spec) in lists.iter().enumerate() {
        let base = spec.build();
        let ids: Vec<u32> = base.iter().map(|x| x.token_id).collect();
        let tokens = hist.expand(&ids);
        let mut seen: Vec<(Logits, Result<Option<u32>, String>)> = vec![];
        for (s, r) in all.iter_mut().zip(res.iter_mut()) {
            let mut l = base.clone();
            r.hist = Some(tokens.clone());
            let out = s.sample_token(r, &mut l).map_err(|e| err_text(&e));
            seen.push((l, out));
        }
        for i in 1..3 {
            check_identical(&seen[0].0, &seen[i].0).map_err(|e| format!("list {step}: {w:?} by {} and by {}: {e}", names[0], names[i]))?;
            ensure!(seen[0].1 == seen[i].1, "list {step}: {w:?} by {}: {:?}, by {}: {:?}", names[0], seen[0].1, names[i], seen[i].1);
        }
        let touched = check_identical(&base, &seen[0].0).is_err();
        cov.nontrivial_if(touched && base.len() > 2);
        cov.label_if(touched, "behaviour compared");
        // Change an option of the samplers in use.
        if let Some(Some((i, u, f))) = edits.get(step).filter(|_| !doc.is_empty()) {
            let i = *i as usize % doc.len();
            let v = match doc[i].1 {
                Ty::U => V::U(*u),
                _ => V::F(D(f.0 as f64)),
            };
            for (s, name) in all.iter_mut().zip(names) {
                let mut want = read_all(s, doc)?;
                s.set_option(doc[i].0, v.option()).map_err(|e| format!("setting {} after list {step}: {e}", doc[i].0))?;
                want[i] = v.clone();
                if let (true, Some(mu)) = (doc[i].0 == "tau", doc.iter().position(|d| d.0 == "mu")) {
                    want[mu] = V::F(D((f.0 * 2.0) as f64));
                }
                let got = read_all(s, doc)?;
                ensure!(got == want, "{w:?} by {name}: after list {step}, setting {} to {v:?} makes the options {got:?}, expected {want:?}", doc[i].0);
            }
            vals[i] = v;
            cov.label("option changed between lists");
        }
    }
    for (i, (k, _)) in doc.iter().enumerate() {
        // mu moves while sampling; it must have moved alike.
        let got: Vec<V> = all.iter().map(|s| s.get_option(k).map(V::from_option).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        ensure!(got[0] == got[1] && got[1] == got[2], "{w:?}: option {k} ends up as {got:?}");
        if *k != "mu" {
            ensure!(got[0] == vals[i], "{w:?}: sampling changed option {k} from {:?} to {:?}", vals[i], got[0]);
        }
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C26";
    const RULE: &'static str = "Either up to 10 set/get operations (full names, prefixes, padded and wild names; right and wrong types; extreme values) on every built-in sampler and on callers' tables with 5 number type pairs, against a model of all options; or samplers given the same values by options, constructor and builder methods, compared by bits on up to 3 lists, options changed in between. Non-trivial: a table of two or more options with both successful and failing sets, or a sampler that changed a list of three or more.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let edits = || vec(gen::opt((any::<u8>(), 0u64..12, prop_oneof![3 => 0.0f32..2.0, 1 => -2.0f32..8.0].prop_map(F)).boxed()), 0..4);
        let op = prop_oneof![
            2 => (key(), value()).prop_map(|(k, v)| Op::Set(k, v)),
            4 => (key(), any_u64(), any_f64(), any::<bool>(), text()).prop_map(|(k, u, d, b, s)| Op::SetTyped(k, u, d, b, s)),
            2 => key().prop_map(Op::Get),
        ];
        let ops = (target(), gen::seq(op, 1..11, 11..60, 300)).prop_map(|(t, ops)| Case::Ops { t, ops });
        let behave = which()
            .prop_flat_map(|w| (Just(w), values_for(w)))
            .prop_flat_map(move |(w, vals)| (Just(w), Just(vals), any::<u64>(), vec(gen::lin_short(), 1..4), gen::hist(), any::<u64>(), edits()))
            .prop_map(|(w, vals, order, lists, hist, seed, edits)| Case::Behave { w, vals, order, lists, hist, seed, edits });

        prop_oneof![1 => ops, 1 => behave].boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        match c {
            Case::Ops { t, ops } => run_ops(t, ops, cov),
            Case::Behave { w, vals, order, lists, hist, seed, edits } => behave(*w, vals, *order, lists, hist, *seed, edits, cov),
        }
    }
}

fn main() {
    harness::run::main::<P>()
}
