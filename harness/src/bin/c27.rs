//! C27: a configuration string does what its key=value parts say, in order.
use harness::{opts::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Part {
    /// key, texts for each type of option, blanks (around key, around value)
    Pair { key: Key, u: String, f: String, b: String, s: String, blanks: [u8; 4] },
    /// The same value without a key, with or without its `=`.
    Bare { eq: bool, u: String, f: String, b: String, s: String, blanks: [u8; 2] },
    Empty(u8),
    Junk(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    t: Target,
    strings: Vec<Vec<Part>>,
}

fn blank(i: u8) -> &'static str {
    harness::opts::blank(i)
}

fn render(parts: &[Part], m: &Model) -> String {
    let pick = |ty: Option<Ty>, u: &str, f: &str, b: &str, s: &str| match ty {
        Some(Ty::U) => u.to_string(),
        Some(Ty::F) | None => f.to_string(),
        Some(Ty::B) => b.to_string(),
        Some(Ty::S) => s.to_string(),
    };
    parts
        .iter()
        .map(|p| match p {
            Part::Pair { key, u, f, b, s, blanks } => {
                let key = key.text(&m.table);
                let v = pick(m.find(&key).map(|i| m.table[i].1), u, f, b, s);
                format!("{}{key}{}={}{v}{}", blank(blanks[0]), blank(blanks[1]), blank(blanks[2]), blank(blanks[3]))
            }
            Part::Bare { eq, u, f, b, s, blanks } => {
                let v = pick(m.find("").map(|i| m.table[i].1), u, f, b, s);
                format!("{}{}{v}{}", blank(blanks[0]), if *eq { "=" } else { "" }, blank(blanks[1]))
            }
            Part::Empty(b) => blank(*b).to_string(),
            Part::Junk(s) => s.clone(),
        })
        .collect::<Vec<_>>()
        .join(":")
}

/// The meaning of a string: assignments in order, ended by a failure or not.
#[derive(Debug, PartialEq)]
enum Meaning {
    All,
    Fails,
    /// Contains something the documentation does not settle.
    Unsettled,
}

fn blanks_only(s: &str) -> bool {
    s.chars().all(char::is_whitespace)
}

/// Applies the parts to the model until one fails.
fn interpret(s: &str, m: &mut Model) -> Meaning {
    for part in s.split(':') {
        if blanks_only(part) {
            continue;
        }
        let (k, v) = match part.find('=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => ("", part),
        };
        let Some(i) = m.find(k) else {
            return Meaning::Fails;
        };
        if !m.table[i].2 {
            return Meaning::Fails;
        }
        match denotes(m.table[i].1, v) {
            Denotes::Nothing => return Meaning::Fails,
            Denotes::Maybe(_) => return Meaning::Unsettled,
            Denotes::Is(v) => match m.may_set(m.table[i].0, &v) {
                Allowed::Sets(i, v) => m.put(i, v),
                Allowed::Fails => return Meaning::Fails,
                Allowed::Either(..) => return Meaning::Unsettled,
            },
        }
    }
    Meaning::All
}

/// Every value the string gives for some option, read as generously as possible.
fn given(s: &str, m: &Model) -> Vec<Vec<V>> {
    let mut out = vec![vec![]; m.table.len()];
    for part in s.split(':') {
        let mut cuts: Vec<(&str, &str)> = part.match_indices('=').map(|(i, _)| (&part[..i], &part[i + 1..])).collect();
        cuts.push(("", part));
        for (k, v) in cuts {
            let Some(i) = m.find(k) else { continue };
            let v = v.trim();
            if let Denotes::Is(v) | Denotes::Maybe(Some(v)) = denotes(m.table[i].1, v) {
                let mut n = m.clone();
                let v = match m.may_set(m.table[i].0, &v) {
                    Allowed::Sets(_, v) | Allowed::Either(_, v) => v,
                    Allowed::Fails => continue,
                };
                n.put(i, v);
                for (j, w) in n.vals.iter().enumerate() {
                    if let (true, Some(w)) = (*w != m.vals[j] || j == i, w) {
                        out[j].push(w.clone());
                    }
                }
            }
        }
    }
    out
}

struct P;
impl Prop for P {
    const ID: &'static str = "C27";
    const RULE: &'static str = "One to three configuration strings put together from keys (full, prefixes, padded, wild), value texts (good and bad), bare values, empty parts, blanks and junk, for every built-in sampler and callers' option tables; against an interpreter of the documented format. Non-trivial: two or more parts that assign, with a result that is settled.";
    const QUICK: u64 = 60_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let text = |t: Ty| prop_oneof![9 => good_text(t), 1 => bad_text()].boxed();
        let texts = move || {
            let f = prop_oneof![3 => (-8.0f32..8.0).prop_map(|f| format!("{f}")), 1 => text(Ty::F)].boxed();
            let u = prop_oneof![3 => (0u32..200).prop_map(|u| u.to_string()), 1 => text(Ty::U)].boxed();
            (u, f, text(Ty::B), text(Ty::S))
        };
        let bl = || prop_oneof![3 => Just(0u8), 1 => 0u8..6];
        let good_key = || (nth(), prop_oneof![15 => Just(0u8), 4 => 2u8..10, 1 => 8u8..120]).prop_map(|(i, cut)| Key::Nth { i, cut, left: 0, right: 0 });
        let pair = (prop_oneof![6 => good_key().boxed(), 1 => key()], texts(), [bl(), bl(), bl(), bl()])
            .prop_map(|(key, (u, f, b, s), blanks)| Part::Pair { key, u, f, b, s, blanks });
        let bare = (any::<bool>(), texts(), [bl(), bl()]).prop_map(|(eq, (u, f, b, s), blanks)| Part::Bare { eq, u, f, b, s, blanks });
        let junk = prop_oneof!["[a-z=: ]{0,8}", "[ -~]{0,8}", "\\PC{0,6}", Just("=".to_string()), Just("k==1".to_string())];
        let part = prop_oneof![
            24 => pair,
            1 => bare.clone(),
            3 => (0u8..6).prop_map(Part::Empty),
            1 => junk.prop_map(Part::Junk),
        ];
        let any_string = gen::seq(part, 0..7, 7..40, 150);
        // Long ones without a fault.
        let good = (
            nth().prop_map(|i| Key::Nth { i, cut: 0, left: 0, right: 0 }),
            (good_text(Ty::U), good_text(Ty::F), good_text(Ty::B), good_text(Ty::S)),
            (0u32..200, -8.0f32..8.0),
            0u8..30,
        )
            .prop_map(|(key, (_, f, b, s), (u, x), i)| Part::Pair {
                key, u: u.to_string(), f: if i == 0 { f } else { format!("{x}") }, b, s, blanks: [0, 0, 0, 0],
            });
        let any_string = prop_oneof![1500 => any_string, 1 => vec(good, 40..400)];
        // One-option samplers are addressed by bare values.
        let one = prop_oneof![
            1 => Just(Target::BuiltIn(Which::Temp)),
            1 => (0u8..14, prop_oneof![Just(Ty::U), Just(Ty::F), Just(Ty::B), Just(Ty::S)]).prop_map(|(i, t)| Target::Own(Nums::U16F64, vec![(i, t, true)])),
        ];
        let bare_parts = vec(prop_oneof![4 => bare, 1 => (0u8..6).prop_map(Part::Empty)], 1..4);
        prop_oneof![
            6 => (target(), vec(any_string, 1..4)),
            1 => (one, vec(bare_parts, 1..3)),
        ]
        .prop_map(|(t, strings)| Case { t, strings })
        .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut o = c.t.obj();
        let mut m = Model::read(&c.t, &*o)?;
        for (n, parts) in c.strings.iter().enumerate() {
            let s = render(parts, &m);
            let before = m.clone();
            let meaning = interpret(&s, &mut m);
            let r = o.configure(&s);
            let assigns = s.split(':').filter(|p| !p.trim().is_empty()).count();
            match (&meaning, &r) {
                (Meaning::All, Ok(())) => {
                    m.agrees(&*o).map_err(|e| format!("string {n} {s:?}: {e}"))?;
                    cov.label("applied");
                    cov.nontrivial_if(assigns > 1);
                    continue;
                }
                (Meaning::Fails, Err(_)) => {
                    cov.label("refused");
                    cov.nontrivial_if(assigns > 1);
                }
                (Meaning::Unsettled, _) => cov.label("unsettled"),
                _ => return Err(format!("string {n} {s:?}: {r:?}, expected {meaning:?} for options {:?}", m.table)),
            }
            // Whatever was refused or unsettled, nothing else got in.
            let given = given(&s, &before);
            let now = Model::read(&c.t, &*o)?;
            for (i, v) in now.vals.iter().enumerate() {
                let Some(v) = v else { continue };
                ensure!(
                    before.vals[i].as_ref() == Some(v) || given[i].contains(v),
                    "string {n} {s:?} ({r:?}): option {} became {v:?}, was {:?}, given {:?}",
                    now.table[i].0, before.vals[i], given[i]
                );
            }
            m = now;
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
