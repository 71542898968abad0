//! C01: building a list keeps every value, rejects NaN at its position.
use harness::{custom::Hint, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    vals: Vals,
    /// Places (modulo the length) overwritten with these bit patterns.
    put: Vec<(u32, F)>,
}

fn any_bits() -> BoxedStrategy<F> {
    prop_oneof![
        4 => any::<u32>().prop_map(|b| F(f32::from_bits(b))),
        2 => proptest::sample::select(vec![
            0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1e-45, -1e-45, f32::MAX, f32::MIN, 1.0
        ]).prop_map(F),
        3 => gen::value_plain(),
    ]
    .boxed()
}

fn patch() -> BoxedStrategy<F> {
    prop_oneof![
        3 => Just(F(f32::NAN)),
        1 => proptest::sample::select(vec![0xffc0_0000u32, 0x7f80_0001, 0xffff_ffff, 0x7fff_ffff]).prop_map(|b| F(f32::from_bits(b))),
        3 => proptest::sample::select(vec![0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1e-45, f32::MIN]).prop_map(F),
    ]
    .boxed()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C01";
    const RULE: &'static str = "Random bit patterns, model-like and vocabulary-sized value lists with NaN/inf/-0.0/denormal values put at random places. Non-trivial: at least two values, and a NaN after place 0 or an infinity, signed zero or denormal in the list.";
    const QUICK: u64 = 400_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let vals = prop_oneof![
            6 => vec(any_bits(), 0..24).prop_map(Vals::Explicit),
            2 => vec(gen::value_wide(), 0..80).prop_map(Vals::Explicit),
            2 => gen::vals(40),
        ];
        (vals, prop_oneof![2 => vec((any::<u32>(), patch()), 0..1), 3 => vec((any::<u32>(), patch()), 0..4)])
            .prop_map(|(vals, put)| Case { vals, put })
            .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let mut v = c.vals.expand();
        let n = v.len();
        if n > 0 {
            for (i, x) in &c.put {
                v[*i as usize % n] = x.0;
            }
        }
        let nan = v.iter().position(|x| x.is_nan());
        cov.nontrivial_if(
            n > 1 && (nan.is_some_and(|i| i > 0) || v.iter().any(|x| x.is_infinite() || !x.is_normal())),
        );
        cov.label_if(nan.is_some(), "nan");
        cov.label_if(nan.is_none() && v.iter().any(|x| x.is_infinite()), "infinite value");
        cov.label_if(n > 65_536, "more than 65536 values");
        let ways: [(&str, Result<Logits, LogitsError>); 7] = [
            ("try_from_iter", Logits::try_from_iter(v.iter().copied())),
            ("try_from_iter of a Vec", Logits::try_from_iter(v.clone())),
            ("try_from_iter without size", Logits::try_from_iter(v.iter().copied().filter(|_| true))),
            ("try_from_iter that knows part of the size", Logits::try_from_iter(v.iter().copied().take(n / 2).chain(v.iter().copied().skip(n / 2).filter(|_| true)))),
            ("try_from_iter that knows too high a bound", Logits::try_from_iter(Hint(v.iter().copied(), n.min(1), n + 5))),
            ("try_from", Logits::try_from(v.clone())),
            ("try_into", v.clone().try_into()),
        ];
        for (how, r) in ways {
            match (nan, r) {
                (None, Err(e)) => return Err(format!("{how}: error {e} without a NaN")),
                (Some(i), Ok(_)) => return Err(format!("{how}: accepted the NaN at {i}")),
                (Some(i), Err(LogitsError::InvalidLogit(j))) => {
                    ensure!(i == j, "{how}: first NaN is at {i}, reported {j}")
                }
                (Some(i), Err(e)) => return Err(format!("{how}: NaN at {i} reported as {e}")),
                (None, Ok(l)) => {
                    ensure!(l.len() == n, "{how}: {n} values gave {} entries", l.len());
                    for (i, x) in l.iter().enumerate() {
                        ensure!(x.token_id as usize == i, "{how}: place {i} has token id {}", x.token_id);
                        ensure!(
                            x.logit.to_bits() == v[i].to_bits(),
                            "{how}: place {i} has logit {:?}, was given {:?}",
                            x.logit,
                            v[i]
                        );
                    }
                    check_flags(&l).map_err(|e| format!("{how}: {e}"))?;
                }
            }
        }
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
