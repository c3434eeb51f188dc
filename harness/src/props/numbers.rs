//! K10..K12: numbers.

use crate::exact;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, st};
use kserd::ds::NumberType;
use kserd::{Kserd, Number, Value};
use serde_json::{json, Value as J};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};


pub fn sign(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

pub fn psign(o: Option<Ordering>) -> i32 {
    o.map(sign).unwrap_or(9)
}

fn hash<T: Hash>(n: &T) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// Runs the body with the primitive of type `ty` and value `v` bound to the name.
macro_rules! with_prim {
    ($ty:expr, $v:expr, $x:ident => $body:expr) => {
        match $ty {
            "u8" => { let $x = exact::to_u128($v) as u8; $body }
            "u16" => { let $x = exact::to_u128($v) as u16; $body }
            "u32" => { let $x = exact::to_u128($v) as u32; $body }
            "u64" => { let $x = exact::to_u128($v) as u64; $body }
            "u128" => { let $x = exact::to_u128($v); $body }
            "usize" => { let $x = exact::to_u128($v) as usize; $body }
            "i8" => { let $x = exact::to_i128($v) as i8; $body }
            "i16" => { let $x = exact::to_i128($v) as i16; $body }
            "i32" => { let $x = exact::to_i128($v) as i32; $body }
            "i64" => { let $x = exact::to_i128($v) as i64; $body }
            "i128" => { let $x = exact::to_i128($v); $body }
            "isize" => { let $x = exact::to_i128($v) as isize; $body }
            "f32" => { let $x = exact::to_f64($v) as f32; $body }
            "f64" => { let $x = exact::to_f64($v); $body }
            t => panic!("harness: primitive type {}", t),
        }
    };
}

fn built<T: NumberType + Copy>(x: T) -> J {
    let n: Number = x.into();
    let k = Kserd::new_num(x);
    let kv = match &k.val {
        Value::Num(n) => exact::of_num(n),
        _ => json!("other"),
    };
    let h = match n {
        Number::Uint(_) => "u",
        Number::Int(_) => "i",
        Number::Float(_) => "f",
    };
    json!({"r": "ok", "h": h, "v": exact::of_num(&n), "kv": kv})
}

fn one<T>(x: Option<T>, f: impl Fn(T) -> J) -> J {
    x.map(f).into_iter().collect()
}

fn outcome(n: Option<Number>) -> J {
    match n {
        Some(n) => json!({"r": "ok", "v": exact::of_num(&n)}),
        None => json!({"r": "err"}),
    }
}

pub fn exec(prop: &str, input: &J) -> J {
    match prop {
        "K10" => {
            let l: Vec<Number> = arr(input, "l").iter().map(exact::to_num).collect();
            let a = l[0];
            let row: Vec<J> = (l.iter())
                .map(|b| {
                    json!({
                        "cmp": sign(a.cmp(b)), "rev": sign(b.cmp(&a)), "pc": psign(a.partial_cmp(b)),
                        "eq": a == *b, "ne": a != *b, "lt": a < *b, "le": a <= *b, "gt": a > *b, "ge": a >= *b,
                        "heq": hash(&a) == hash(b),
                    })
                })
                .collect();
            let mut s = l.clone();
            s.sort();
            let prim: Vec<J> = (arr(input, "pr").iter())
                .map(|p| with_prim!(st(p, "ty"), &p["v"], x => json!({"eq": a == x, "pc": psign(a.partial_cmp(&x))})))
                .collect();
            json!({
                "r": "ok", "row": row, "sorted": s.iter().map(exact::of_num).collect::<Vec<_>>(),
                "bt": l.iter().collect::<BTreeSet<_>>().len(), "hs": l.iter().collect::<HashSet<_>>().len(), "prim": prim,
            })
        }
        "K11" if input["w"] == "num" => {
            let n = exact::to_num(&input["n"]);
            let v = Value::Num(n);
            let u = |x| one(x, exact::of_u128);
            let i = |x| one(x, exact::of_i128);
            json!({
                "r": "ok", "u": u(n.as_u128().ok()), "i": i(n.as_i128().ok()), "f": exact::of_f64(n.as_f64()),
                "vu": u(v.uint()), "vi": i(v.int()), "vf": v.float().map(exact::of_f64).unwrap_or(json!("none")),
            })
        }
        "K11" => with_prim!(st(input, "ty"), &input["n"]["v"], x => built(x)),
        "K12" if input["w"] == "num" => {
            let n = exact::to_num(&input["n"]);
            let s = n.to_string();
            let doc = match kserd::parse::parse(&s).map(|k| k.val) {
                Ok(Value::Num(n)) => Some(n),
                _ => None,
            };
            let cs: Vec<u32> = s.chars().map(|c| c as u32).collect();
            json!({"r": "ok", "cs": cs, "back": outcome(s.parse().ok()), "doc": outcome(doc)})
        }
        _ => {
            let s: String =
                arr(input, "cs").iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            json!({"r": "ok", "back": outcome(s.parse().ok())})
        }
    }
}

fn next_to(r: &mut Rng, f: f64) -> f64 {
    let b = f.to_bits();
    f64::from_bits(match r.below(3) {
        0 => b.wrapping_add(1),
        1 => b.wrapping_sub(1),
        _ => b,
    })
}

/// A number near `n`: the same value held differently, or a neighbour.
fn near(r: &mut Rng, n: Number) -> Number {
    match r.below(8) {
        0 => Number::Float(n.as_f64()),
        1 => Number::Float(next_to(r, n.as_f64())),
        2 => n.as_u128().map(Number::Uint).unwrap_or(n),
        3 => n.as_i128().map(Number::Int).unwrap_or(n),
        4 => match n {
            Number::Uint(x) => Number::Uint(x.wrapping_add(1)),
            Number::Int(x) => Number::Int(x.wrapping_add(1)),
            Number::Float(x) => Number::Uint(x as u128),
        },
        5 => match n {
            Number::Uint(x) => Number::Uint(x.wrapping_sub(1)),
            Number::Int(x) => Number::Int(x.wrapping_sub(1)),
            Number::Float(x) => Number::Int(x as i128),
        },
        6 => match n {
            Number::Float(x) => Number::Float(-x),
            Number::Uint(x) => Number::Int((x as i128).wrapping_neg()),
            Number::Int(x) => Number::Int(x.wrapping_neg()),
        },
        _ => n,
    }
}

fn number(r: &mut Rng) -> Number {
    match r.below(6) {
        // a whole number plus a little, around the tolerance of the integer conversions
        0 => {
            let w = *r.pick(&[0.0, 1.0, 2.0, 100.0, 255.0, 65536.0, 1e6]);
            let d = *r.pick(&[1e-10, 1e-11, 5e-11, 1.1e-10, 9.99e-11, 2e-10, 1e-9, 0.25, 0.5, 1e-16]);
            let x = if r.flip() { w + d } else { w - d };
            Number::Float(if r.chance(1, 3) { -x } else { x })
        }
        // halfway cases of the conversion to floating point
        1 => {
            let top = r.next() >> 11 | 1 << 52;
            let sh = r.range(1, 75);
            let half = 1u128 << (sh - 1);
            let x = ((top as u128) << sh) + half + *r.pick(&[0u128, 1, 0]) - *r.pick(&[0u128, 1, 0]);
            if r.flip() {
                Number::Uint(x)
            } else {
                Number::Int((x >> 1) as i128 * if r.flip() { 1 } else { -1 })
            }
        }
        // the edges of the ranges
        2 => {
            let f = *r.pick(&[
                170141183460469231731687303715884105728.0,
                340282366920938463463374607431768211456.0,
                9007199254740992.0,
                18446744073709551616.0,
                9223372036854775808.0,
            ]);
            let f = next_to(r, f);
            Number::Float(if r.flip() { f } else { -f })
        }
        3 => *r.pick(&[
            Number::Uint(u128::MAX),
            Number::Uint(u128::MAX - 1),
            Number::Int(i128::MAX),
            Number::Int(i128::MIN),
            Number::Int(i128::MIN + 1),
            Number::Uint(i128::MAX as u128 + 1),
            Number::Uint(i128::MAX as u128),
            Number::Uint(0),
            Number::Int(0),
            Number::Int(-1),
            Number::Float(0.0),
            Number::Float(-1.0),
        ]),
        _ => gen::number(r),
    }
}

/// The number a primitive of the type becomes.
fn prim(r: &mut Rng, near: Number) -> J {
    let ty = *r.pick(&[
        "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f32", "f64",
    ]);
    let u = match near {
        Number::Uint(x) => x,
        Number::Int(x) => x as u128,
        Number::Float(x) => x as i128 as u128,
    };
    let v = match ty {
        "u8" => exact::of_u128(u as u8 as u128),
        "u16" => exact::of_u128(u as u16 as u128),
        "u32" => exact::of_u128(u as u32 as u128),
        "u64" | "usize" => exact::of_u128(u as u64 as u128),
        "u128" => exact::of_u128(u),
        "i8" => exact::of_i128(u as i8 as i128),
        "i16" => exact::of_i128(u as i16 as i128),
        "i32" => exact::of_i128(u as i32 as i128),
        "i64" | "isize" => exact::of_i128(u as i64 as i128),
        "i128" => exact::of_i128(u as i128),
        "f32" => {
            let f = match r.below(4) {
                0 => f32::from_bits(r.next() as u32),
                // near the ends of the range
                _ if r.chance(1, 6) => f32::from_bits((*r.pick(&[0x7f00_0000u32, 0x0080_0000, 0x7f7f_ffff, 0])).wrapping_add(r.below(0x0080_0000) as u32)),
                1 => r.below(1000) as f32 / 10.0,
                _ => near.as_f64() as f32,
            };
            // the shortest decimal reading
            exact::of_f64(format!("{:e}", f).parse().unwrap())
        }
        _ => exact::of_f64(near.as_f64()),
    };
    json!({"ty": ty, "v": v})
}

fn digits(r: &mut Rng, n: usize) -> String {
    let all = r.below(4);
    (0..n)
        .map(|_| match all {
            0 => '9',
            1 => '0',
            _ => (b'0' + r.below(10) as u8) as char,
        })
        .collect()
}

/// Number texts of every form, some damaged.
fn text(r: &mut Rng) -> String {
    let mut s = match r.below(14) {
        0 => {
            let n = r.range(1, 39);
            digits(r, n)
        }
        1 => {
            let w = r.pick(&["inf", "infinity", "nan", "NaN", "INF", "Infinity", "NAN", "iNf"]);
            w.to_string()
        }
        2 => number(r).to_string(),
        // decimals right at, just below and just above the middle of two doubles
        3 | 4 => {
            let f = loop {
                let f = f64::from_bits(r.next()).abs();
                if f.is_finite() && (1e-8..1e30).contains(&f) {
                    break f;
                }
            };
            let (a, b) = (f, f64::from_bits(f.to_bits() + 1));
            middle(r, a, b)
        }
        5 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() { format!("{:e}", f) } else { "1e308".into() }
        }
        6 => {
            let x = f64::from_bits(r.below(4) as u64);
            let y = format!("{:e}", x);
            y
        }
        7 => format!("{}e{}", digits(r, 3), *r.pick(&[308i32, 309, 307, -323, -324, -325, -320, 400, -400, 310, -330])),
        8 => {
            let n = r.range(0, 4);
            let m = r.range(0, 22);
            let z = r.below(20);
            format!("{}.{}{}", digits(r, n), "0".repeat(z), digits(r, m))
        }
        9 => (r.pick(&[
            "1.7976931348623157e308", "1.7976931348623159e308", "1.7976931348623158e308", "2.2250738585072014e-308",
            "2.2250738585072011e-308", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "4.9e-324",
            "9007199254740993", "9007199254740993.0", "9007199254740993e0", "340282366920938463463374607431768211455",
            "340282366920938463463374607431768211456", "170141183460469231731687303715884105727",
            "170141183460469231731687303715884105728", "170141183460469231731687303715884105729", "1e23", "8.5e22",
            "123456789012345678901234567890123456789", "0.000001", "1e-7", "1e0", "1e00010", "1e99999999999",
        ]))
        .to_string(),
        10 => {
            let n = r.range(1, 20);
            let e = r.range(0, 60) as i32 - 30;
            let m = r.range(0, 5);
            format!("{}.{}e{}", digits(r, n), digits(r, m), e)
        }
        11 => {
            let n = if r.chance(1, 4) { r.range(9, 38) } else { r.range(1, 8) };
            let mut d = digits(r, n);
            let most = *r.pick(&[3, 3, 3, 12, 3, 3, 12, 60]);
            for _ in 0..r.range(1, most) {
                let i = r.below(d.len() + 1);
                d.insert(i, '_');
            }
            d
        }
        12 => {
            let n = r.range(1, 6);
            format!("{}E+{}", digits(r, n), r.below(30))
        }
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| *r.pick(&['-', '+', '.', 'e', 'E', '_', '0', '1', '9', ' ', 'i', 'n', 'f', 'a'])).collect()
        }
    };
    if r.chance(1, 3) {
        s.insert(0, '-');
    } else if r.chance(1, 12) {
        s.insert(0, '+');
    }
    if r.chance(1, 6) {
        // damage
        let i = loop {
            let i = r.below(s.len() + 1);
            if s.is_char_boundary(i) {
                break i;
            }
        };
        match r.below(3) {
            0 => s.insert(i, *r.pick(&['-', '+', '.', 'e', '_', ' ', '5', 'x', '\u{663}', '\n', 'f', 'd'])),
            1 if i < s.len() => {
                s.remove(i);
            }
            _ => s.truncate(i),
        }
    }
    s
}

/// Exact decimal of the middle of two positive neighbouring doubles, or a shade off it.
fn middle(r: &mut Rng, a: f64, b: f64) -> String {
    // both fit in fixed notation; the middle needs one more binary digit, so a few more decimals
    let (x, y) = (format!("{:.90}", a), format!("{:.90}", b));
    let d = |s: &str| s.bytes().filter(|c| *c != b'.').map(|c| c - b'0').collect::<Vec<_>>();
    let (mut p, mut q) = (d(&x), d(&y));
    let n = p.len().max(q.len());
    while p.len() < n {
        p.insert(0, 0);
    }
    while q.len() < n {
        q.insert(0, 0);
    }
    // (p + q) / 2, one more digit
    let mut sum = vec![0u16; n + 1];
    let mut c = 0;
    for i in (0..n).rev() {
        let t = p[i] as u16 + q[i] as u16 + c;
        sum[i + 1] = t % 10;
        c = t / 10;
    }
    sum[0] = c;
    sum.push(0);
    let mut rem = 0;
    let mut half: Vec<u8> = vec![];
    for t in sum {
        let v = rem * 10 + t;
        half.push((v / 2) as u8);
        rem = v % 2;
    }
    let point = half.len() - 91;
    let mut s: String = half.iter().map(|x| (b'0' + x) as char).collect();
    s.insert(point, '.');
    let mut s = s.trim_start_matches('0').to_string();
    match r.below(4) {
        0 => s.push('1'),
        1 => {
            // just below the middle
            let t = s.trim_end_matches('0').to_string();
            if let Some(l) = t.bytes().last().filter(|c| *c > b'0' && *c <= b'9') {
                s = format!("{}{}9", &t[..t.len() - 1], (l - 1) as char);
            }
        }
        _ => s = s.trim_end_matches('0').to_string(),
    }
    s
}

pub fn gen(prop: &str, r: &mut Rng) -> J {
    match prop {
        "K10" => {
            let n = r.range(2, 6);
            let mut l = vec![number(r)];
            while l.len() < n {
                let from = *r.pick(&l);
                let x = if r.chance(3, 4) { near(r, from) } else { number(r) };
                l.push(x);
            }
            let pr: Vec<J> = (0..3)
                .map(|_| {
                    let x = if r.flip() { near(r, l[0]) } else { number(r) };
                    prim(r, x)
                })
                .collect();
            json!({"l": l.iter().map(exact::num).collect::<Vec<_>>(), "pr": pr})
        }
        "K11" if r.chance(2, 3) => {
            let x = number(r);
            let n = if r.flip() { x } else { near(r, x) };
            json!({"w": "num", "n": exact::num(&n), "ty": ""})
        }
        "K11" => {
            let n = number(r);
            let p = prim(r, n);
            json!({"w": "prim", "n": {"h": "", "v": p["v"]}, "ty": p["ty"]})
        }
        _ if r.chance(1, 2) => {
            let x = number(r);
            let n = if r.flip() { x } else { near(r, x) };
            json!({"w": "num", "n": exact::num(&n), "cs": []})
        }
        _ => {
            let cs: Vec<u32> = text(r).chars().map(|c| c as u32).collect();
            json!({"w": "text", "n": {"h": "", "v": ""}, "cs": cs})
        }
    }
}

/// Flips the top digit of some value record found in `j`.
fn twist(v: &mut J) {
    if v["c"] == "fin" && v["s"] != 0 {
        v["e"] = (v["e"].as_i64().unwrap() + 1).into();
    } else {
        *v = exact::of_u128(7);
    }
}

pub fn corrupt(prop: &str, input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    match prop {
        "K10" => {
            let c = o["row"][1]["cmp"].as_i64()?;
            o["row"][1]["cmp"] = (if c == 0 { 1 } else { 0 }).into();
        }
        "K11" if input["w"] == "num" => match o["i"].as_array()?.is_empty() {
            true => o["i"] = json!([exact::of_i128(-3)]),
            false => o["i"] = json!([]),
        },
        "K11" => twist(&mut o["v"]),
        _ if o["back"]["r"] == "ok" => twist(&mut o["back"]["v"]),
        _ => o["back"] = json!({"r": "ok", "v": exact::of_u128(1)}),
    }
    Some(o)
}
