//! K25: holders of text and bytes.

use crate::rng::Rng;
use crate::tree::{arr, st};
use kserd::{Barr, Kstr};
use serde_json::{json, Value as J};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

fn codes(j: &J) -> Vec<u32> {
    j.as_array().expect("harness: codes").iter().map(|x| x.as_u64().unwrap() as u32).collect()
}

fn text(j: &J) -> String {
    codes(j).into_iter().map(|c| char::from_u32(c).expect("harness: character")).collect()
}

fn bytes(j: &J) -> Vec<u8> {
    codes(j).into_iter().map(|c| c as u8).collect()
}

fn chars(s: &str) -> J {
    s.chars().map(|c| J::from(c as u32)).collect()
}

fn ord(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

macro_rules! session {
    ($input:ident, $ty:ident, $plain:ty, $of:ident, $show:expr, $look:expr, $push:expr, $cut:expr, $shown:expr, $found:expr, $hashed:expr, $plainly:expr) => {{
        let sources: Vec<_> = arr($input, "src").iter().map($of).collect();
        let mut all: Vec<$ty> = vec![];
        let mut steps = vec![];
        for op in arr($input, "ops") {
            let (a, b) = (op["a"].as_u64().unwrap() as usize, op["b"].as_u64().unwrap() as usize);
            match st(op, "o") {
                "brw" => all.push($ty::brwed(&sources[b - 1])),
                "from" => all.push($ty::from(&sources[b - 1][..])),
                "own" => all.push($ty::owned($of(&op["v"]))),
                "fromown" => all.push($ty::from($of(&op["v"]))),
                "clone" => {
                    let x = all[a - 1].clone();
                    all.push(x)
                }
                "into" => {
                    let x = std::mem::replace(&mut all[a - 1], $ty::owned(Default::default()));
                    all[a - 1] = x.into_owned();
                }
                "push" => $push(all[a - 1].to_mut(), &$of(&op["v"])),
                "clear" => all[a - 1].to_mut().clear(),
                "cut" => $cut(all[a - 1].to_mut()),
                "set" => all[a - 1].inner = Cow::Owned($of(&op["v"])),
                o => panic!("harness: operation {}", o),
            }
            steps.push(all.iter().map(|x| json!({"v": $show(x), "same": $look(x)})).collect::<Vec<_>>());
        }
        let pairs: Vec<Vec<J>> = all
            .iter()
            .map(|x| {
                let pair = |y: &$ty| {
                    let p: &$plain = y.as_ref();
                    json!({"cmp": ord(x.cmp(y)), "pc": x.partial_cmp(y).map_or(9, ord), "eq": x == y, "ne": x != y, "plain": x == p, "plainly": $plainly(x, p),
                           "lt": x < y, "ge": x >= y, "hash": hash(x) == hash(y) && hash(x) == hash(p)})
                };
                all.iter().map(pair).collect()
            })
            .collect();
        let (mut tree, mut table) = (BTreeMap::new(), HashMap::new());
        for (i, x) in all.iter().enumerate() {
            tree.insert(x.clone(), i + 1);
            table.insert(x.clone(), i + 1);
        }
        let found: Vec<usize> = all.iter().map(|x| $found(&tree, x)).collect();
        let hashed: Vec<usize> = all.iter().map(|x| $hashed(&table, x)).collect();
        let shown: Vec<J> = all.iter().map($shown).collect();
        let src: Vec<J> = sources.iter().map(|x| $show(x)).collect();
        json!({"r": "ok", "steps": steps, "src": src, "pairs": pairs, "shown": shown, "found": found, "hashed": hashed})
    }};
}

pub fn exec(input: &J) -> J {
    if st(input, "ty") == "text" {
        session!(
            input, Kstr, str, text,
            |x: &str| chars(x),
            |x: &Kstr| {
                let s = x.as_str();
                let b: &str = x.borrow();
                let d: &str = x;
                let r: &str = x.as_ref();
                s == b && s == d && s == r && *s == *x.inner
            },
            |s: &mut String, v: &String| s.push_str(v),
            |s: &mut String| {
                let n = s.chars().count() / 2;
                *s = s.chars().take(n).collect()
            },
            |x: &Kstr| json!({"show": chars(&x.to_string()), "dbg": chars(&format!("{:?}", x))}),
            |m: &BTreeMap<Kstr, usize>, x: &Kstr| {
                let i = m.get(x.as_str()).copied().unwrap_or(0);
                if m.get(x) == Some(&i) { i } else { 0 }
            },
            |m: &HashMap<Kstr, usize>, x: &Kstr| {
                let i = m.get(x.as_str()).copied().unwrap_or(0);
                if m.get(x) == Some(&i) { i } else { 0 }
            },
            |x: &Kstr, p: &str| *x == *p
        )
    } else {
        session!(
            input, Barr, [u8], bytes,
            |x: &[u8]| x.iter().map(|b| J::from(*b)).collect::<J>(),
            |x: &Barr| {
                let s = x.as_bytes();
                let d: &[u8] = x;
                let r: &[u8] = x.as_ref();
                s == d && s == r && *s == *x.inner
            },
            |s: &mut Vec<u8>, v: &Vec<u8>| s.extend(v),
            |s: &mut Vec<u8>| s.truncate(s.len() / 2),
            |x: &Barr| json!({"text": format!("{:?}", x)}),
            |m: &BTreeMap<Barr, usize>, x: &Barr| m.get(x).copied().unwrap_or(0),
            |m: &HashMap<Barr, usize>, x: &Barr| m.get(x).copied().unwrap_or(0),
            |x: &Barr, p: &[u8]| x == *p
        )
    }
}

pub fn gen(r: &mut Rng) -> J {
    let wide = r.chance(1, 3);
    let ty = if r.flip() { "text" } else { "bytes" };
    let content = |r: &mut Rng| -> J {
        let n = if r.chance(1, 30) { r.range(9, 60) } else { *r.pick(&[0, 1, 1, 2, 2, 3, 8]) };
        let one = |r: &mut Rng| match (ty, wide) {
            ("text", true) => *r.pick(&[
                0x61, 0x62, 0x22, 0x5c, 0x0a, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xffff, 0x10000, 0x1f600, 0, 0x20, 0x09, 0x0d, 0xc9, 0x301, 0xfeff,
            ]),
            ("text", false) => *r.pick(&[0x61, 0x62, 0x41, 0x20, 0]),
            (_, true) => r.below(256) as u32,
            _ => r.below(3) as u32,
        };
        (0..n).map(|_| J::from(one(r))).collect()
    };
    let mut src: Vec<J> = (0..3).map(|_| content(r)).collect();
    if r.chance(1, 3) {
        if r.chance(1, 4) {
            // the same content at length
            src[0] = (0..r.range(9, 40)).map(|_| J::from(r.range(0x61, 0x7a))).collect();
        }
        let mut c = codes(&src[0]);
        if r.chance(1, 4) {
            // the second differs from the first in case only
            src[1] = c.iter().map(|x| if (0x61..0x7b).contains(x) { x - 0x20 } else { *x }).collect::<Vec<_>>().into();
        } else if !c.is_empty() {
            // the second differs from the first in one bit
            let i = r.below(c.len());
            let x = c[i] ^ (1 << r.below(if ty == "text" { 11 } else { 8 }));
            if ty != "text" || char::from_u32(x).is_some() {
                c[i] = x;
            }
            src[1] = c.into();
        }
    }
    let mut n = 0;
    let len = r.range(2, 14);
    let mut ops = vec![];
    for _ in 0..len {
        let make = n == 0 || (n < 8 && r.chance(2, 5));
        let o = if make { *r.pick(&["brw", "from", "own", "fromown", "clone"]) } else { *r.pick(&["into", "push", "push", "clear", "cut", "set"]) };
        let o = if o == "clone" && n == 0 { "brw" } else { o };
        ops.push(json!({"o": o, "a": if n == 0 { 0 } else { r.range(1, n) }, "b": r.range(1, 3), "v": content(r)}));
        n += make as usize;
    }
    json!({"ty": ty, "src": src, "ops": ops})
}

pub fn corrupt(input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    match arr(input, "ops").len() % 4 {
        0 => o["steps"][0][0]["v"] = json!([1, 2, 3, 4, 5, 6, 7, 8, 9]),
        1 => o["pairs"][0][0]["eq"] = false.into(),
        2 => o["hashed"][0] = 0.into(),
        _ => o["src"][2] = json!([1, 2, 3, 4, 5, 6, 7, 8, 9]),
    }
    Some(o)
}
