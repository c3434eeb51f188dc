//! Conversion between kserd values and the JSON trees of the specification.
//!
//! Canonical payload texts are computed here from the raw data, independently of the
//! formatting and parsing code under test.

use crate::exact;
use kserd::{Kserd, Number, Value};
use serde_json::{json, Map, Value as J};

/// Exact canonical text of a double: decimal digits if integral, shortest decimal otherwise.
pub fn canon_f64(f: f64) -> String {
    if f.is_nan() {
        "NaN".into()
    } else if f.is_infinite() {
        if f > 0.0 { "inf" } else { "-inf" }.into()
    } else if f == 0.0 {
        "0".into()
    } else if f.fract() == 0.0 {
        format!("{:.0}", f)
    } else {
        format!("{}", f)
    }
}

pub fn canon_num(n: &Number) -> String {
    match n {
        Number::Uint(x) => x.to_string(),
        Number::Int(x) => x.to_string(),
        Number::Float(f) => canon_f64(*f),
    }
}

/// The number a canonical text stands for; `held` forces the representation.
pub fn num_from(p: &str, held: Option<&str>) -> Number {
    let float = || Number::Float(p.parse::<f64>().expect("canonical float"));
    match held {
        Some("f") => float(),
        Some("z") => Number::Float(-0.0),
        Some("i") => Number::Int(p.parse().expect("canonical i128")),
        Some("u") => Number::Uint(p.parse().expect("canonical u128")),
        _ if p.contains(|c| ".einN".contains(c)) => float(),
        _ => (p.parse().map(Number::Uint).ok())
            .or_else(|| p.parse().map(Number::Int).ok())
            .unwrap_or_else(float),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

const B91: &[u8; 91] =
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,./:;<=>?@[]^_`{|}~\"";

/// Base-91 text of bytes, from the published algorithm.
pub fn b91_encode(data: &[u8]) -> String {
    let (mut acc, mut bits, mut out) = (0u32, 0u32, String::new());
    for &b in data {
        acc |= u32::from(b) << bits;
        bits += 8;
        if bits > 13 {
            let mut v = acc & 8191;
            if v > 88 {
                acc >>= 13;
                bits -= 13;
            } else {
                v = acc & 16383;
                acc >>= 14;
                bits -= 14;
            }
            out.push(B91[(v % 91) as usize] as char);
            out.push(B91[(v / 91) as usize] as char);
        }
    }
    if bits > 0 {
        out.push(B91[(acc % 91) as usize] as char);
        if bits > 7 || acc > 90 {
            out.push(B91[(acc / 91) as usize] as char);
        }
    }
    out
}

/// Bytes spelled by base-91 text; bytes outside the alphabet are skipped.
pub fn b91_decode(text: &str) -> Vec<u8> {
    let (mut acc, mut bits, mut out, mut held) = (0u32, 0u32, vec![], None);
    for b in text.bytes() {
        let d = match B91.iter().position(|x| *x == b) {
            Some(d) => d as u32,
            None => continue,
        };
        match held.take() {
            None => held = Some(d),
            Some(lo) => {
                let v = lo + d * 91;
                acc |= v << bits;
                bits += if v & 8191 > 88 { 13 } else { 14 };
                while bits > 7 {
                    out.push(acc as u8);
                    acc >>= 8;
                    bits -= 8;
                }
            }
        }
    }
    if let Some(lo) = held {
        out.push((acc | lo << bits) as u8);
    }
    out
}

fn ids(k: &Kserd) -> J {
    match &k.id {
        Some(s) => json!([s.as_str()]),
        None => json!([]),
    }
}

/// Tree of a value. `full` adds the layout fields `t` and `w`.
pub fn to_tree(k: &Kserd, full: bool) -> J {
    let (mut kind, mut p, mut t, mut w) = ("unit", String::new(), String::new(), 0usize);
    let (mut nm, mut ks, mut c) = (vec![], vec![], vec![]);
    let mut held = None;
    match &k.val {
        Value::Unit => (),
        Value::Bool(b) => {
            kind = "bool";
            p = b.to_string();
        }
        Value::Num(n) => {
            kind = "num";
            p = canon_num(n);
            held = Some(match n {
                Number::Uint(_) => "u",
                Number::Int(_) => "i",
                Number::Float(f) if *f == 0.0 && f.is_sign_negative() => "z",
                Number::Float(_) => "f",
            });
            if full {
                t = match n {
                    Number::Uint(x) => x.to_string(),
                    Number::Int(x) => x.to_string(),
                    Number::Float(f) if f.is_finite() && f.abs() >= 9007199254740992.0 => format!("{:e}", f),
                    Number::Float(f) => f.to_string(),
                };
                w = t.chars().count();
            }
        }
        Value::Str(s) => {
            kind = "str";
            p = s.as_str().to_string();
            w = p.chars().map(|ch| ch.escape_default().count()).sum();
        }
        Value::Barr(b) => {
            kind = "barr";
            p = hex(b.as_bytes());
            if full {
                t = b91_encode(b.as_bytes());
                w = b.as_bytes().len();
            }
        }
        Value::Tuple(v) => {
            kind = "tuple";
            c = v.iter().map(|x| to_tree(x, full)).collect();
        }
        Value::Seq(v) => {
            kind = "seq";
            c = v.iter().map(|x| to_tree(x, full)).collect();
        }
        Value::Cntr(f) => {
            kind = "cntr";
            for (n, v) in f.iter() {
                nm.push(J::from(n.as_str()));
                c.push(to_tree(v, full));
            }
        }
        Value::Map(m) => {
            kind = "map";
            for (a, v) in m.iter() {
                ks.push(to_tree(a, full));
                c.push(to_tree(v, full));
            }
        }
    }
    let mut o = Map::new();
    o.insert("k".into(), kind.into());
    o.insert("id".into(), ids(k));
    o.insert("p".into(), p.into());
    if full {
        o.insert("t".into(), t.into());
        o.insert("w".into(), w.into());
        if let Some(h) = held {
            o.insert("n".into(), h.into());
        }
    }
    o.insert("nm".into(), nm.into());
    o.insert("ks".into(), ks.into());
    o.insert("c".into(), c.into());
    J::Object(o)
}

pub fn st<'a>(j: &'a J, f: &str) -> &'a str {
    j[f].as_str().unwrap_or_else(|| panic!("harness: no text field {} in {}", f, j))
}

pub fn arr<'a>(j: &'a J, f: &str) -> &'a Vec<J> {
    j[f].as_array().unwrap_or_else(|| panic!("harness: no list field {} in {}", f, j))
}

/// Build the value a tree describes. The structure is assembled from the public enum directly.
pub fn from_tree(j: &J) -> Kserd<'static> {
    let kids = || arr(j, "c").iter().map(from_tree).collect::<Vec<_>>();
    let val = match st(j, "k") {
        "unit" => Value::Unit,
        "bool" => Value::Bool(st(j, "p") == "true"),
        "num" if st(j, "p").is_empty() => Value::Num(exact::to_num(&json!({"h": j["n"], "v": j["q"]}))),
        "num" => Value::Num(num_from(st(j, "p"), j.get("n").and_then(|x| x.as_str()))),
        "str" => Value::Str(st(j, "p").to_string().into()),
        "barr" => Value::Barr(unhex(st(j, "p")).into()),
        "tuple" => Value::Tuple(kids()),
        "seq" => Value::Seq(kids()),
        "cntr" => Value::Cntr(
            arr(j, "nm")
                .iter()
                .map(|n| n.as_str().unwrap().to_string().into())
                .zip(kids())
                .collect(),
        ),
        "map" => Value::Map(arr(j, "ks").iter().map(from_tree).zip(kids()).collect()),
        k => panic!("harness: unknown kind {}", k),
    };
    let id = arr(j, "id").first().map(|s| s.as_str().unwrap().to_string().into());
    Kserd { id, val }
}

/// Order-insensitive form of results: map and container entries sorted.
pub fn canonical(j: &J) -> J {
    match j {
        J::Array(v) => J::Array(v.iter().map(canonical).collect()),
        J::Object(o) => {
            let mut out: Map<String, J> = o.iter().map(|(k, v)| (k.clone(), canonical(v))).collect();
            if let (Some(J::String(k)), true) = (o.get("k"), o.contains_key("c")) {
                let list = |f: &str| out.get(f).and_then(|x| x.as_array()).cloned().unwrap_or_default();
                let (c, ks, nm) = (list("c"), list("ks"), list("nm"));
                let heads = match k.as_str() {
                    "map" if ks.len() == c.len() => Some(("ks", ks)),
                    "cntr" if nm.len() == c.len() => Some(("nm", nm)),
                    _ => None,
                };
                if let Some((f, heads)) = heads {
                    let mut es: Vec<_> = heads.into_iter().zip(c).collect();
                    es.sort_by_key(|(h, _)| h.to_string());
                    let (h, c): (Vec<_>, Vec<_>) = es.into_iter().unzip();
                    out.insert(f.into(), h.into());
                    out.insert("c".into(), c.into());
                }
            }
            J::Object(out)
        }
        x => x.clone(),
    }
}
