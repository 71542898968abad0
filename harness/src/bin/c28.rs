//! C28: option values parse exactly what they denote and reject the rest.
use harness::{opts::*, prelude::*};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    t: Ty,
    text: String,
    left: u8,
    right: u8,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C28";
    const RULE: &'static str = "Texts for each option type: values written in the usual ways, near misses, mutated values and arbitrary unicode, padded with blanks; against an independent grammar and parser (u64 by digits, f64 correctly rounded). Non-trivial: a text of two or more characters whose verdict is settled.";
    const QUICK: u64 = 220_000;
    type Case = Case;

    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let ty = prop_oneof![3 => Just(Ty::U), 4 => Just(Ty::F), 2 => Just(Ty::B), 1 => Just(Ty::S)];
        let pad = || prop_oneof![12 => Just(0u8), 5 => 0u8..6, 1 => 6u8..10];
        ty.prop_flat_map(move |t| {
            (
                Just(t),
                prop_oneof![5 => good_text(t), 3 => bad_text(), 1 => good_text(Ty::U), 1 => good_text(Ty::B), 1 => good_text(Ty::F)],
                pad(),
                pad(),
            )
        })
        .prop_map(|(t, text, left, right)| Case { t, text, left, right })
        .boxed()
    }

    fn check(c: &Case, cov: &mut Cov) -> Outcome {
        let s = format!("{}{}{}", blank(c.left), c.text, blank(c.right));
        let want = denotes(c.t, &s);
        let got = SamplerOptionValue::parse_value(option_type(c.t), &s).map(V::from_option);
        // Borrowed and owned texts are the same text.
        let again = SamplerOptionValue::parse_value(option_type(c.t), s.clone()).map(V::from_option);
        ensure!(got.as_ref().ok() == again.as_ref().ok(), "{s:?} as {:?}: {got:?}, then {again:?}", c.t);
        if let Ok(v) = &got {
            ensure!(v.ty() == c.t, "{s:?} as {:?} gives {v:?}", c.t);
        }
        match (&want, &got) {
            (Denotes::Is(w), Ok(g)) if w == g => cov.label("value"),
            (Denotes::Nothing, Err(_)) => cov.label("refused"),
            (Denotes::Maybe(_), Err(_)) | (Denotes::Maybe(None), _) => (),
            (Denotes::Maybe(Some(w)), Ok(g)) if w == g => (),
            _ => return Err(format!("{s:?} as {:?}: got {got:?}, denotes {want:?}", c.t)),
        }
        // A parsed number, written out again, is the same number.
        if let (Ok(V::F(d)), Denotes::Is(_)) = (&got, &want) {
            let back = SamplerOptionValue::parse_value(SamplerOptionType::Float, format!("{}", d.0)).map(V::from_option);
            ensure!(back.as_ref().ok() == Some(&V::F(*d)), "{d:?} written out parses as {back:?}");
        }
        if let Ok(V::U(u)) = &got {
            let back = SamplerOptionValue::parse_value(SamplerOptionType::UInt, format!(" {u} ")).map(V::from_option);
            ensure!(back.as_ref().ok() == Some(&V::U(*u)), "{u} written out parses as {back:?}");
        }
        cov.nontrivial_if(c.text.len() > 1 && !matches!(want, Denotes::Maybe(_)));
        Ok(())
    }
}

fn main() {
    harness::run::main::<P>()
}
