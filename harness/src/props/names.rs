//! K20: identities and field names.

use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, st, to_tree};
use kserd::{Kserd, Kstr, Value};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// Whether a value may carry a text, and what it then looks like.
fn ident(s: &str, value: &Kserd<'static>) -> J {
    let a = Kserd::with_id(s, value.val.clone());
    let b = Kserd::with_id(s.to_string(), value.val.clone());
    let show = |x: &Result<Kserd, _>| match x {
        Ok(k) => {
            let bare = Kserd { id: None, val: k.val.clone() };
            let same = to_tree(&bare, true) == to_tree(&Kserd { id: None, val: value.val.clone() }, true);
            json!({"ok": true, "id": k.id().map_or(json!([]), |x| json!([x])), "raw": k.id.as_ref().map_or(json!([]), |x| json!([x.as_str()])), "same": same})
        }
        Err(_) => json!({"ok": false, "id": [], "raw": [], "same": true}),
    };
    json!([show(&a), show(&b)])
}

fn fields(f: &BTreeMap<Kstr, Kserd>, probes: &[J]) -> J {
    let num = |k: &Kserd| k.val.uint().map_or(-1, |x| x as i64);
    json!({
        "nm": f.keys().map(|n| n.as_str()).collect::<Vec<_>>(), "c": f.values().map(num).collect::<Vec<_>>(),
        "get": probes.iter().map(|p| f.get(p.as_str().unwrap()).map_or(0, num)).collect::<Vec<_>>(),
    })
}

/// A container of the numbers 1, 2, .. under the names in turn.
fn built<'a>(x: Result<Kserd<'a>, kserd::ds::InvalidFieldName>, probes: &[J]) -> J {
    match x {
        Err(_) => json!({"ok": false, "id": [], "f": []}),
        Ok(k) => match &k.val {
            Value::Cntr(f) => json!({"ok": true, "id": k.id().map_or(json!([]), |x| json!([x])), "f": [fields(f, probes)]}),
            _ => json!({"ok": true, "id": ["not a container"], "f": []}),
        },
    }
}

pub fn exec(input: &J) -> J {
    let texts: Vec<&str> = arr(input, "s").iter().map(|x| x.as_str().unwrap()).collect();
    if st(input, "o") == "id" {
        let value = from_tree(&input["tree"]);
        return json!({"r": "ok", "ids": texts.iter().map(|s| ident(s, &value)).collect::<Vec<_>>()});
    }
    let n = |i: usize| Kserd::new_num(i as u32 + 1);
    let brw = || texts.iter().enumerate().map(move |(i, s)| (*s, n(i)));
    let own = || texts.iter().enumerate().map(move |(i, s)| (s.to_string(), n(i)));
    let p = arr(input, "probes");
    json!({"r": "ok", "cntr": [
        built(Kserd::new_cntr(brw()), p), built(Kserd::new_cntr(own()), p),
        built(Value::new_cntr(brw()).map(Kserd::new), p), built(Value::new_cntr(own()).map(Kserd::new), p),
    ]})
}

const ODD: &[char] = &[
    '(', ')', '{', '}', '[', ']', '<', '>', ' ', ',', '.', '/', '\\', '=', '"', '\'', '\t', '\n', '\r', '0', '1', '9', ':',
    '`', '|', '#', '-', '_', '+', '\u{a0}', '\u{3000}', '\u{2009}', '٣', '０', 'é', '“', '’', '\u{0}', '\u{b}', '\u{c}', '\u{7f}',
    '\u{85}', '\u{2028}', '¼', '⟨', '〈', '（', '．', '／', '＝', '😀',
];

pub fn text(r: &mut Rng) -> String {
    let mut s = match r.below(8) {
        0 => return String::new(),
        1 | 2 => gen::name(r),
        3 => gen::string(r),
        _ => (0..r.range(1, 6)).map(|_| *r.pick(&['a', 'b', 'Z', '5', '_', 'λ'])).collect(),
    };
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        let c = match r.below(4) {
            0 => (r.below(128) as u8) as char,
            1 => char::from_u32(r.below(0xd800) as u32).unwrap(),
            _ => *r.pick(ODD),
        };
        let cut: Vec<char> = s.chars().collect();
        let i = *r.pick(&[0, cut.len(), cut.len() / 2]);
        s = cut[..i].iter().chain(&[c]).chain(&cut[i..]).collect();
    }
    s
}

pub fn gen(r: &mut Rng) -> J {
    if r.flip() {
        let s: Vec<String> = (0..12).map(|_| text(r)).collect();
        return json!({"o": "id", "s": s, "tree": to_tree(&gen::tree(r, 6), true), "probes": []});
    }
    // mostly good names, so that whole lists are accepted about half of the time
    let good = |r: &mut Rng| loop {
        let s = if r.chance(2, 3) { gen::name(r) } else { text(r) };
        if !s.is_empty() && !s.starts_with(|c: char| c.is_ascii_digit()) && !s.contains(|c| " /\\\"\t'".contains(c)) {
            return s;
        }
    };
    let n = if r.chance(1, 20) { r.range(12, 40) } else { r.below(6) };
    let mut s: Vec<String> = (0..n).map(|_| good(r)).collect();
    if !s.is_empty() && r.chance(1, 3) {
        let d = r.pick(&s).clone();
        s.push(d);
    }
    if r.flip() {
        let i = r.below(s.len() + 1);
        s.insert(i, text(r));
    }
    let mut probes = s.clone();
    probes.extend((0..3).map(|_| text(r)));
    if let Some(x) = s.first() {
        probes.push(x.to_uppercase());
        probes.push(format!("{} ", x));
        probes.push(x.trim().to_string());
    }
    json!({"o": "cntr", "s": s, "tree": to_tree(&Kserd::new_unit(), true), "probes": probes})
}

pub fn corrupt(input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    let x = if input["o"] == "id" { &mut o["ids"][3][1] } else { &mut o["cntr"][2] };
    x["ok"] = (x["ok"] == false).into();
    Some(o)
}
