pub mod custom;
pub mod dict;
pub mod fl;
pub mod gen;
pub mod miro;
pub mod model;
pub mod opts;
pub mod res;
pub mod run;

pub mod prelude {
    pub use crate::{
        custom, dict, ensure,
        fl::{close, same, ulps, F},
        gen::{self, Hist, Ids, LIn, Prep, Sel, Shape, Vals, S},
        miro,
        model::{self, *},
        res,
        run::{boxed, Cov, Outcome, Prop, Tier},
        with_sampler,
    };
    pub use llm_samplers::{configure::*, prelude::*};
    pub use proptest::{
        collection::vec,
        prelude::{any, prop_oneof, Just, Strategy},
        strategy::BoxedStrategy,
    };
    pub use serde::{Deserialize, Serialize};
}
