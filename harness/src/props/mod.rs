//! One `exec` (run the crate on an input) and one `gen` (make an input) per property.

mod conv;
mod holders;
mod layout;
mod names;
mod nav;
mod numbers;
mod order;
mod place;
mod refuse;
mod serde_model;
mod show;
mod store;
mod text;

use crate::rng::Rng;
use serde_json::Value as J;

pub fn exec(prop: &str, input: &J) -> J {
    match prop {
        "K01" | "K02" | "K03" | "K04" | "K05" | "K06" => layout::exec(prop, input),
        "K07" | "K08" | "K09" | "K24" => text::exec(prop, input),
        "K10" | "K11" | "K12" => numbers::exec(prop, input),
        "K13" => order::exec(input),
        "K14" | "K15" | "K16" | "K17" => serde_model::exec(prop, input),
        "K18" | "K19" => nav::exec(prop, input),
        "K20" => names::exec(input),
        "K21" | "K22" => store::exec(prop, input),
        "K23" => conv::exec(input),
        "K25" => holders::exec(input),
        "K26" => show::exec(input),
        "K27" => refuse::exec(input),
        "K28" => place::exec(input),
        _ => panic!("harness: no such property {}", prop),
    }
}

pub fn gen(prop: &str, r: &mut Rng, i: usize) -> J {
    match prop {
        "K01" | "K02" | "K03" | "K04" | "K05" | "K06" => layout::gen(prop, r),
        "K07" | "K08" | "K09" | "K24" => text::gen(prop, r, i),
        "K10" | "K11" | "K12" => numbers::gen(prop, r),
        "K13" => order::gen(r),
        "K14" | "K15" | "K16" | "K17" => serde_model::gen(prop, r),
        "K18" | "K19" => nav::gen(r),
        "K20" => names::gen(r),
        "K21" | "K22" => store::gen(prop, r),
        "K23" => conv::gen(r),
        "K25" => holders::gen(r),
        "K26" => show::gen(r),
        "K27" => refuse::gen(r),
        "K28" => place::gen(r),
        _ => panic!("harness: no such property {}", prop),
    }
}

/// A falsified observation that the specification has to reject.
pub fn corrupt(prop: &str, input: &J, obs: &J) -> Option<J> {
    if obs["r"] == "panic" {
        return None;
    }
    match prop {
        "K01" | "K02" | "K03" | "K04" | "K05" | "K06" => layout::corrupt(prop, obs),
        "K07" | "K08" | "K09" | "K24" => text::corrupt(prop, input, obs),
        "K10" | "K11" | "K12" => numbers::corrupt(prop, input, obs),
        "K13" => order::corrupt(obs),
        "K14" | "K15" | "K16" | "K17" => serde_model::corrupt(prop, obs),
        "K18" | "K19" => nav::corrupt(prop, obs),
        "K20" => names::corrupt(input, obs),
        "K21" | "K22" => store::corrupt(prop, input, obs),
        "K23" => conv::corrupt(obs),
        "K25" => holders::corrupt(input, obs),
        "K26" => show::corrupt(input, obs),
        "K27" => refuse::corrupt(obs),
        "K28" => place::corrupt(obs),
        _ => None,
    }
}

/// The part of an observation that the specification predicts in replayed vectors.
pub fn project(prop: &str, obs: &J) -> J {
    match prop {
        "K01" | "K02" | "K03" => layout::project(prop, obs),
        _ => obs.clone(),
    }
}
