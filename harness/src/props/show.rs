//! K26: debug forms.

use crate::gen;
use crate::rng::Rng;
use crate::tree::{from_tree, to_tree};
use kserd::nav::Navigator;
use kserd::{Kserd, Number, Value};
use serde_json::{json, Value as J};

/// The std spelling of the identity and the payload of every subvalue, depth first, keys before values.
fn spellings(k: &Kserd, out: &mut Vec<J>) {
    let p = match &k.val {
        Value::Num(Number::Uint(x)) => format!("Uint({:?})", x),
        Value::Num(Number::Int(x)) => format!("Int({:?})", x),
        Value::Num(Number::Float(x)) => format!("Float({:?})", x),
        Value::Str(s) => format!("{:?}", s.as_str()),
        Value::Barr(b) => format!("{:?}", b.as_bytes()),
        _ => String::new(),
    };
    out.push(json!({"id": k.id.as_ref().map_or(String::new(), |x| format!("{:?}", x.as_str())), "p": p}));
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter().for_each(|x| spellings(x, out)),
        Value::Cntr(f) => f.values().for_each(|x| spellings(x, out)),
        Value::Map(m) => m.iter().for_each(|(a, b)| {
            spellings(a, out);
            spellings(b, out);
        }),
        _ => (),
    }
}

pub fn exec(input: &J) -> J {
    let k = from_tree(&input["tree"]);
    let mut x = vec![];
    spellings(&k, &mut x);
    let nav = Navigator::new(&k);
    let nodes: Vec<J> = nav.nodes().map(|n| json!({"line": format!("{:?}", n), "spread": format!("{:#?}", n)})).collect();
    json!({
        "r": "ok", "x": x, "line": format!("{:?}", k), "spread": format!("{:#?}", k),
        "val": format!("{:?}", k.val), "valspread": format!("{:#?}", k.val), "nodes": nodes,
    })
}

/// Identities that need escapes.
fn odd_ids(r: &mut Rng, t: &mut J) {
    if r.chance(1, 3) {
        let id: String = (0..r.range(1, 4)).map(|_| *r.pick(&['a', '"', '\n', '\'', '\u{0}', 'é', '\t', '\u{301}', '\u{200b}', ':'])).collect();
        t["id"] = json!([id]);
    }
    for x in t["c"].as_array_mut().into_iter().flatten() {
        odd_ids(r, x);
    }
}

pub fn gen(r: &mut Rng) -> J {
    let budget = *r.pick(&[1, 3, 6, 12, 30]);
    let mut t = to_tree(&gen::any_tree(r, budget), true);
    if r.chance(1, 6) {
        odd_ids(r, &mut t);
    }
    json!({"tree": t})
}

pub fn corrupt(input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    let f = *["line", "spread", "val", "valspread"].get(input.to_string().len() % 4)?;
    let mut s: Vec<char> = o[f].as_str()?.chars().collect();
    let at = s.iter().rposition(|c| c.is_alphanumeric()).unwrap_or(0);
    s.remove(at);
    o[f] = s.into_iter().collect::<String>().into();
    Some(o)
}
