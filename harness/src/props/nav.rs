//! K18, K19: the navigator.

use crate::gen;
use crate::rng::Rng;
use crate::tree::{from_tree, to_tree};
use kserd::nav::{Navigator, Node, NodeValue};
use kserd::{Kserd, Value};
use serde_json::{json, Value as J};

/// Every subvalue with the way to it: entry i of its parent as i + 1, key i as -i - 1.
fn places<'a, 'k>(k: &'a Kserd<'k>, path: Vec<i64>, out: &mut Vec<(*const Kserd<'k>, Vec<i64>)>) {
    let mut under = |x: &'a Kserd<'k>, step: i64| {
        let mut p = path.clone();
        p.push(step);
        places(x, p, out);
    };
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter().enumerate().for_each(|(i, x)| under(x, i as i64 + 1)),
        Value::Cntr(f) => f.values().enumerate().for_each(|(i, x)| under(x, i as i64 + 1)),
        Value::Map(m) => m.iter().enumerate().for_each(|(i, (a, b))| {
            under(a, -(i as i64) - 1);
            under(b, i as i64 + 1);
        }),
        _ => (),
    }
    out.push((k, path));
}

/// One entry per step of an iterator: remaining length, emptiness, what came, and its name.
macro_rules! walk {
    ($it:expr, $x:ident => $item:expr, $name:expr) => {{
        let mut it = $it;
        let mut steps = vec![];
        loop {
            let (l, e) = (it.len(), it.is_empty());
            match it.next() {
                Some($x) => steps.push(json!({"l": l, "e": e, "x": $item, "n": $name})),
                None => {
                    steps.push(json!({"l": l, "e": e, "x": [], "n": []}));
                    break;
                }
            }
            if steps.len() > 10000 {
                break;
            }
        }
        // a finished iterator stays finished
        let over = it.next().is_none() && it.len() == 0 && it.is_empty();
        json!({"steps": steps, "over": over})
    }};
}

fn node(n: Node, seen: &[(*const Kserd, Vec<i64>)], other: &Navigator) -> J {
    let same = |nav: &Navigator| nav.nodes().filter(|m| *m == n).map(|m| J::from(m.index())).collect::<J>();
    let (kind, it) = match n.value() {
        NodeValue::Primitive => ("prim", json!({"steps": [], "over": true})),
        NodeValue::Tuple(i) => ("tuple", walk!(i, x => [x.index()], [""; 0])),
        NodeValue::Seq(i) => ("seq", walk!(i, x => [x.index()], [""; 0])),
        NodeValue::Cntr(i) => ("cntr", walk!(i, x => [x.1.index()], [x.0.as_str()])),
        NodeValue::Map(i) => ("map", walk!(i, x => [x.0.index(), x.1.index()], [""; 0])),
    };
    let at = (seen.iter().find(|x| std::ptr::eq(x.0 as *const u8, n.kserd() as *const Kserd as *const u8)))
        .map_or(vec![0], |x| x.1.clone());
    json!({
        "i": n.index(), "par": n.parent().map_or(-1, |p| p.index() as i64), "key": n.is_key(), "pos": n.idx_in_parent(),
        "at": at, "eq": same(n.nav()), "alien": same(other), "k": kind, "it": it, "top": n.nav().root().index(),
        "vc": walk!(n.value_children(), x => [x.index()], [""; 0]), "kc": walk!(n.key_children(), x => [x.index()], [""; 0]),
    })
}

pub fn exec(prop: &str, input: &J) -> J {
    let k = from_tree(&input["tree"]);
    // a formatter holds a navigator of its own
    let held = kserd::fmt::Formatter::new(&k);
    let own = Navigator::new(&k);
    let nav = if gen::size(&k) % 2 == 0 { held.as_ref() } else { &own };
    if prop == "K19" {
        let list = |v: Vec<Node>| v.iter().map(|x| J::from(x.index())).collect::<J>();
        let from: Vec<J> = (nav.nodes()).map(|n| json!({"depth": list(n.descendants_depth()), "breadth": list(n.descendants_breadth())})).collect();
        return json!({"r": "ok", "from": from});
    }
    let mut seen = vec![];
    places(&k, vec![], &mut seen);
    let other = Navigator::new(&k);
    let same = nav.nodes().all(|n| nav.get(n.index()) == Some(n));
    let beyond = [0, 1, 7].iter().all(|d| nav.get(nav.len() + d).is_none()) && nav.get(usize::MAX).is_none();
    json!({
        "r": "ok", "len": nav.len(), "empty": nav.is_empty(), "root": node(nav.root(), &seen, &other), "same": same, "beyond": beyond,
        "nodes": nav.nodes().map(|n| node(n, &seen, &other)).collect::<Vec<_>>(),
    })
}

pub fn gen(r: &mut Rng) -> J {
    if r.chance(1, 800) {
        // more nodes than a byte counts
        let n = r.range(250, 280);
        let v = (0..n).map(|i| Kserd::new_num(i % 7)).collect();
        let k = Kserd::new(if r.flip() { Value::Seq(v) } else { Value::Tuple(v) });
        return json!({"tree": to_tree(&k, true)});
    }
    let budget = *r.pick(&[4, 8, 15, 30, 60]);
    json!({"tree": to_tree(&gen::any_tree(r, budget), true)})
}

pub fn corrupt(prop: &str, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    if prop == "K18" {
        let n = o["nodes"].as_array()?.len() - 1;
        o["nodes"][n]["pos"] = (o["nodes"][n]["pos"].as_i64()? + 1).into();
        return Some(o);
    }
    let list = o["from"][0]["breadth"].as_array_mut()?;
    if list.len() < 2 {
        list.push(1.into());
    } else {
        let n = list.len();
        list.swap(n - 1, n - 2);
    }
    Some(o)
}
