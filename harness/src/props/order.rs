//! K13: equality and order of values.

use super::numbers::{psign, sign};
use crate::exact;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, to_tree};
use kserd::{Kserd, Number, Value};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// Tree with the order keys of the specification.
pub fn keyed(k: &Kserd) -> J {
    let mut t = to_tree(k, true);
    add_keys(k, &mut t);
    t
}

fn add_keys(k: &Kserd, t: &mut J) {
    let bytes = |s: &str| s.bytes().map(J::from).collect::<Vec<_>>();
    match &k.val {
        Value::Num(n) => t["q"] = exact::of_num(n),
        Value::Str(s) => t["o"] = bytes(s).into(),
        Value::Barr(b) => t["o"] = b.as_bytes().iter().copied().map(J::from).collect(),
        Value::Tuple(v) | Value::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                add_keys(x, &mut t["c"][i]);
            }
        }
        Value::Cntr(f) => {
            t["no"] = f.keys().map(|n| J::from(bytes(n))).collect();
            for (i, x) in f.values().enumerate() {
                add_keys(x, &mut t["c"][i]);
            }
        }
        Value::Map(m) => {
            for (i, (a, b)) in m.iter().enumerate() {
                add_keys(a, &mut t["ks"][i]);
                add_keys(b, &mut t["c"][i]);
            }
        }
        _ => (),
    }
}

/// The same value with all identities taken off.
fn bare(k: &Kserd) -> Kserd<'static> {
    let list = |v: &[Kserd]| v.iter().map(bare).collect();
    let val = match &k.val {
        Value::Tuple(v) => Value::Tuple(list(v)),
        Value::Seq(v) => Value::Seq(list(v)),
        Value::Cntr(f) => Value::Cntr(f.iter().map(|(n, v)| (n.as_str().to_string().into(), bare(v))).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(a, b)| (bare(a), bare(b))).collect()),
        Value::Unit => Value::Unit,
        Value::Bool(b) => Value::Bool(*b),
        Value::Num(n) => Value::Num(*n),
        Value::Str(s) => Value::Str(s.as_str().to_string().into()),
        Value::Barr(b) => Value::Barr(b.as_bytes().to_vec().into()),
    };
    Kserd { id: None, val }
}

pub fn exec(input: &J) -> J {
    let l: Vec<Kserd> = arr(input, "l").iter().map(from_tree).collect();
    let a = &l[0];
    let row: Vec<J> = (l.iter())
        .map(|b| {
            json!({
                "cmp": sign(a.cmp(b)), "rev": sign(b.cmp(a)), "pc": psign(a.partial_cmp(b)), "val": sign(a.val.cmp(&b.val)), "vpc": psign(a.val.partial_cmp(&b.val)),
                "brw": sign(a.mk_brw().cmp(b)), "own": sign(a.cmp(&b.mk_brw().into_owned())), "bare": sign(bare(a).cmp(b)),
                "eq": a == b, "ne": a != b, "veq": a.val == b.val, "beq": a.mk_brw() == bare(b),
                "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
            })
        })
        .collect();
    let mut o = json!({"r": "ok", "row": row});
    if input["w"] == "all" {
        let mut m = BTreeMap::new();
        for (i, k) in l.iter().enumerate() {
            m.insert(k.clone(), i + 1);
        }
        let look = |k: &Kserd| m.get(k).copied().unwrap_or(0);
        let mut s: Vec<usize> = (1..=l.len()).collect();
        s.sort_by(|x, y| l[x - 1].cmp(&l[y - 1]));
        o["map"] = json!({
            "len": m.len(), "order": m.values().collect::<Vec<_>>(), "sorted": s,
            "found": l.iter().map(look).collect::<Vec<_>>(), "bare": l.iter().map(|k| look(&bare(k))).collect::<Vec<_>>(),
        });
    }
    o
}

fn tweak_leaf(r: &mut Rng, v: &Value<'static>) -> Value<'static> {
    match v {
        Value::Num(n) => match r.below(4) {
            0 => Value::Num(Number::Float(n.as_f64())),
            1 => n.as_i128().map(|x| Value::Num(Number::Int(x))).unwrap_or(Value::Unit),
            2 => n.as_u128().map(|x| Value::Num(Number::Uint(x.wrapping_add(1)))).unwrap_or(Value::Unit),
            _ => Value::Num(gen::number(r)),
        },
        Value::Str(s) => match r.below(6) {
            4 | 5 if !s.is_empty() => {
                // one character changed; characters either side of the surrogates, and of each width
                let near = ['a', 'A', '\u{0}', 'z', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
                let mut c: Vec<char> = s.chars().collect();
                let i = r.below(c.len());
                c[i] = if r.chance(1, 4) { char::from_u32(c[i] as u32 ^ 0x20).unwrap_or('b') } else { *r.pick(&near) };
                Value::Str(c.into_iter().collect::<String>().into())
            }
            0 => Value::Barr(s.as_bytes().to_vec().into()),
            1 => Value::Str(format!("{}{}", s, gen::string(r)).into()),
            2 => Value::Str(s.chars().take(s.chars().count() / 2).collect::<String>().into()),
            _ => Value::Str(gen::string(r).into()),
        },
        Value::Barr(b) => {
            let mut b = b.as_bytes().to_vec();
            match (r.below(3), b.len()) {
                (0, n) if n > 0 => {
                    let i = r.below(n);
                    b[i] = b[i].wrapping_add(128);
                }
                (1, n) if n > 0 => b.truncate(n - 1),
                _ => b.push(0),
            }
            Value::Barr(b.into())
        }
        Value::Bool(b) => Value::Bool(!b),
        _ => gen::prim(r, false),
    }
}

/// A value that differs from `k` in one place, perhaps only in an identity.
fn tweak(r: &mut Rng, k: &Kserd<'static>) -> Kserd<'static> {
    if r.chance(1, 5) {
        let id = if r.flip() { None } else { Some(gen::name(r).into()) };
        return Kserd { id, val: k.val.clone() };
    }
    let id = k.id.clone();
    let deeper = r.chance(3, 4);
    let val = match &k.val {
        Value::Tuple(v) | Value::Seq(v) => {
            let mut w = v.clone();
            let tuple = matches!(k.val, Value::Tuple(_));
            if deeper && !w.is_empty() {
                let i = r.below(w.len());
                w[i] = tweak(r, &w[i]);
            } else {
                match r.below(5) {
                    0 if !w.is_empty() => {
                        let i = r.below(w.len());
                        w.remove(i);
                    }
                    1 => w.push(Kserd { id: None, val: gen::prim(r, false) }),
                    2 if tuple && w.is_empty() => return Kserd { id, val: Value::Cntr(BTreeMap::new()) },
                    3 => return Kserd { id, val: if tuple { Value::Seq(w) } else { Value::Tuple(w) } },
                    _ if w.len() > 1 => w.swap(0, 1),
                    _ => (),
                }
            }
            if tuple {
                Value::Tuple(w)
            } else {
                Value::Seq(w)
            }
        }
        Value::Cntr(f) => {
            let mut g = f.clone();
            if g.is_empty() {
                return Kserd { id, val: if r.flip() { Value::Tuple(vec![]) } else { Value::Map(BTreeMap::new()) } };
            }
            let n = r.below(g.len());
            let name = g.keys().nth(n).unwrap().clone();
            let v = g.remove(&name).unwrap();
            match (deeper, r.below(3)) {
                (true, _) => drop(g.insert(name, tweak(r, &v))),
                (_, 0) => (),
                (_, 1) => drop(g.insert(format!("{}a", name).into(), v)),
                _ => drop(g.insert(gen::name(r).into(), v)),
            }
            Value::Cntr(g)
        }
        Value::Map(m) => {
            let mut g = m.clone();
            if g.is_empty() {
                return Kserd { id, val: if r.flip() { Value::Seq(vec![]) } else { Value::Unit } };
            }
            let n = r.below(g.len());
            let key = g.keys().nth(n).unwrap().clone();
            let v = g.remove(&key).unwrap();
            match r.below(4) {
                0 => (),
                1 => drop(g.insert(tweak(r, &key), v)),
                _ => drop(g.insert(key, tweak(r, &v))),
            }
            Value::Map(g)
        }
        v => tweak_leaf(r, v),
    };
    Kserd { id, val }
}

pub fn gen(r: &mut Rng) -> J {
    let n = r.range(2, 6);
    let mut l = vec![gen::any_tree(r, 12)];
    while l.len() < n {
        let x = if r.chance(5, 6) {
            let from = r.pick(&l).clone();
            if r.chance(1, 6) { bare(&from) } else { tweak(r, &from) }
        } else {
            gen::any_tree(r, 8)
        };
        l.push(x);
    }
    json!({"w": "all", "l": l.iter().map(keyed).collect::<Vec<_>>()})
}

pub fn corrupt(obs: &J) -> Option<J> {
    let mut o = obs.clone();
    let c = o["row"][1]["cmp"].as_i64()?;
    o["row"][1]["cmp"] = (if c == 0 { 1 } else { 0 }).into();
    Some(o)
}
