//! Random inputs.

use crate::rng::Rng;
use kserd::{Kserd, Number, Value};
use serde_json::{json, Value as J};

pub const NAMES: &[&str] = &[
    "a", "b", "c", "A", "Foo", "foo-bar", "_", "_x1", "a1", "str", "strx", "string", "b91", "e", "inf", "NaN", "inf1",
    "truex", "falsey", "None", "Some", "True", "i", "in", "n", "long_field_name_here", "x-", "Z9_-z", "nan", "b91x",
    "str-", "str_", "f64", "Ok", "Err", "Some1", "Someone", "Nonesuch", "some", "none", "true-", "false_1", "Oks", "str1",
    "b91-", "e1", "E",
];

pub fn name(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        return r.pick(NAMES).to_string();
    }
    let most = if r.chance(1, 20) { 90 } else { 9 };
    let first: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCXYZ_".chars().collect();
    let rest: Vec<char> = "abcdefghinstrueflopqxyzABCXYZ0123456789_-".chars().collect();
    let mut s = r.pick(&first).to_string();
    for _ in 0..r.below(most) {
        s.push(*r.pick(&rest));
    }
    if s == "true" || s == "false" {
        s.push('x');
    }
    s
}

const PIECES: &[&str] = &[
    "\"", "'", "#", "`", "|", "*", "^", "!", "%", "~", "&", "\\", "/", ":", "<", ">", ")", "(", "[", "]", "[[", "]]",
    "{", "}", "=", ",", " ", "  ", "\n", "\r\n", "\t", "\r", "    ", "a", "b = ", ":x", "str", "b91'", "true", "1",
    "-", "_", "é", "λ", "✓", "\u{0}", "\u{7f}", "\u{a0}", "¡", "$", "+", "?", ";", "@", "a = 1", "[a]", "()", ".",
    "\u{85}", "\u{ad}", "e\u{301}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{b}", "\u{c}", "ß",
];
const DELIMS: &str = "\"'#`|*^!%~&\\/:<>)";

pub fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 => (),
        1..=3 => s.push_str(r.pick(NAMES)),
        4 => {
            // all delimiters up to some point, so that the next one has to be chosen
            let n = if r.chance(1, 6) { DELIMS.len() } else { r.below(DELIMS.len() + 1) };
            s.extend(DELIMS.chars().take(n));
            if n == DELIMS.len() {
                // and some of the characters after those
                s.extend((0..r.below(8) as u32).map(|i| char::from_u32(0xa1 + i).unwrap()));
            }
        }
        5 if r.chance(1, 4) => s.push('😀'),
        _ => {
            let n = if r.chance(1, 40) { r.range(20, 120) } else { r.range(1, 5) };
            for _ in 0..n {
                s.push_str(r.pick(PIECES));
            }
        }
    }
    s
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::from_bits(r.next()),
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => -0.0,
        5 => r.below(1000) as f64,
        6 => -(r.below(100000) as f64) / 8.0,
        7 => 2f64.powi(r.range(0, 140) as i32) * if r.flip() { 1.0 } else { -1.0 },
        8 => (2f64.powi(r.range(50, 60) as i32)) + r.below(5) as f64 - 2.0,
        9 => f64::from_bits(r.below(100) as u64),
        10 => 10f64.powi(r.range(0, 40) as i32 - 20),
        11 => f64::MAX,
        12 => f64::MIN_POSITIVE,
        _ => r.below(1_000_000) as f64 / 1000.0,
    }
}

pub fn number(r: &mut Rng) -> Number {
    match r.below(10) {
        0..=2 => Number::Uint(r.below(100) as u128),
        3 => Number::Int(-(r.below(100) as i128) - 1),
        4 => {
            let b = 1u128.checked_shl(r.below(128) as u32).unwrap_or(0);
            Number::Uint(match r.below(3) {
                0 => b,
                1 => b.wrapping_sub(1),
                _ => b.wrapping_add(1),
            })
        }
        5 => {
            let b = 1i128.wrapping_shl(r.below(128) as u32);
            Number::Int(match r.below(3) {
                0 => b,
                1 => b.wrapping_neg(),
                _ => b.wrapping_add(1),
            })
        }
        6 => Number::Uint(r.u128()),
        _ => Number::Float(float(r)),
    }
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(60) {
        0 => r.below(400),
        1..=10 => r.below(60),
        _ => r.below(9),
    };
    (0..n)
        .map(|_| if r.flip() { r.next() as u8 } else { *r.pick(&[0u8, 255, 39, 34, 10, 91]) })
        .collect()
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// chance (of 16) that a node carries an identity
    pub ids: usize,
    /// longest child list
    pub wide: usize,
    pub depth: usize,
}

pub fn shape(r: &mut Rng) -> Shape {
    let ids = *r.pick(&[0, 4, 8, 16]);
    match r.below(30) {
        0 => return Shape { ids, wide: 30, depth: r.range(1, 2) },
        1 => return Shape { ids, wide: 2, depth: 10 },
        _ => (),
    }
    Shape {
        ids,
        wide: *r.pick(&[2, 3, 3, 4, 6]),
        depth: *r.pick(&[1, 2, 3, 3, 4, 5]),
    }
}

fn with_id(r: &mut Rng, sh: Shape, val: Value<'static>) -> Kserd<'static> {
    let id = if r.chance(sh.ids, 16) { Some(name(r).into()) } else { None };
    Kserd { id, val }
}

pub fn prim(r: &mut Rng, key: bool) -> Value<'static> {
    match r.below(if key { 12 } else { 13 }) {
        0 => Value::Unit,
        1 | 2 => Value::Bool(r.flip()),
        3..=6 => Value::Num(number(r)),
        7 | 8 => Value::Barr(bytes(r).into()),
        _ => Value::Str(string(r).into()),
    }
}

/// Random value with at most about `budget` nodes. Keys never contain an empty tuple or
/// container, so that no two keys share a spelling.
pub fn value(r: &mut Rng, sh: Shape, depth: usize, budget: &mut usize, key: bool) -> Kserd<'static> {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || r.chance(3, 10) {
        let v = prim(r, key);
        return with_id(r, sh, v);
    }
    let n = if r.chance(1, 10) { 0 } else { r.range(1, sh.wide) };
    let kind = r.below(8);
    let n = if key && n == 0 && (kind < 4) { 1 } else { n };
    let val = match kind {
        0 | 1 => Value::Tuple((0..n).map(|_| value(r, sh, depth - 1, budget, key)).collect()),
        2 | 3 => Value::Cntr((0..n).map(|_| (name(r).into(), value(r, sh, depth - 1, budget, key))).collect()),
        4 | 5 => Value::Seq((0..n).map(|_| value(r, sh, depth - 1, budget, key)).collect()),
        _ => {
            let mut m = std::collections::BTreeMap::new();
            for _ in 0..n {
                let kd = if r.chance(2, 3) { 0 } else { depth - 1 };
                let k = value(r, sh, kd, budget, true);
                let v = value(r, sh, depth - 1, budget, key);
                // keep keys apart from unit as well: one spelling each
                m.insert(k, v);
            }
            Value::Map(m)
        }
    };
    with_id(r, sh, val)
}

pub fn tree(r: &mut Rng, max: usize) -> Kserd<'static> {
    let sh = shape(r);
    let mut budget = r.range(1, max);
    if max > 20 && r.chance(1, 8) {
        // containers in containers: verbose all the way down
        let mut k = value(r, Shape { ids: sh.ids, wide: 3, depth: 2 }, 2, &mut 9, false);
        for _ in 0..r.range(2, 7) {
            let mut f: std::collections::BTreeMap<_, _> = Default::default();
            for _ in 0..r.below(3) {
                f.insert(name(r).into(), {
                    let d = r.below(2);
                    value(r, sh, d, &mut 4, false)
                });
            }
            f.insert(name(r).into(), k);
            k = with_id(r, sh, Value::Cntr(f));
        }
        return k;
    }
    if max > 20 && r.chance(1, 10) {
        // a table: a list or map of rows with many small fields each
        let cols = r.range(1, 12);
        let row = |r: &mut Rng| {
            let f = (0..cols).map(|_| (name(r).into(), value(r, sh, 0, &mut 1, false))).collect::<Vec<_>>();
            let val = match r.below(5) {
                0 => Value::Tuple(f.into_iter().map(|x: (kserd::Kstr<'static>, _)| x.1).collect()),
                _ => Value::Cntr(f.into_iter().collect()),
            };
            with_id(r, sh, val)
        };
        let n = r.range(1, 4);
        let rows = if r.chance(1, 4) {
            Value::Map((0..n).map(|_| (value(r, sh, 0, &mut 1, true), row(r))).collect())
        } else {
            Value::Seq((0..n).map(|_| row(r)).collect())
        };
        let rows = with_id(r, sh, rows);
        let mut f: std::collections::BTreeMap<_, _> = Default::default();
        for _ in 0..r.below(3) {
            f.insert(name(r).into(), value(r, sh, 1, &mut 3, false));
        }
        f.insert(name(r).into(), rows);
        return with_id(r, sh, Value::Cntr(f));
    }
    if max > 20 && r.chance(1, 10) {
        // a record of many fields with records of their own among them
        let n = r.range(4, 12);
        let f = (0..n)
            .map(|_| {
                let v = match r.below(4) {
                    0 => {
                        let m = r.below(5);
                        let g = (0..m)
                            .map(|_| {
                                let d = r.below(2);
                                (name(r).into(), value(r, sh, d, &mut 4, false))
                            })
                            .collect();
                        with_id(r, sh, Value::Cntr(g))
                    }
                    1 => value(r, sh, 1, &mut 4, false),
                    _ => value(r, sh, 0, &mut 1, false),
                };
                (name(r).into(), v)
            })
            .collect();
        return with_id(r, sh, Value::Cntr(f));
    }
    // containers at the root exercise the verbose notation most
    if r.chance(1, 2) && sh.depth > 0 {
        let n = r.range(1, sh.wide);
        let f = (0..n).map(|_| (name(r).into(), value(r, sh, sh.depth - 1, &mut budget, false))).collect();
        with_id(r, sh, Value::Cntr(f))
    } else {
        value(r, sh, sh.depth, &mut budget, false)
    }
}

const WIDE: &[char] = &['é', 'λ', '✓', '中', 'ß', 'a', '1', '?', '/', '@'];

/// Legal names that the notation cannot spell, most of them wider in bytes than in characters.
fn wide_name(r: &mut Rng) -> String {
    (0..r.range(1, 9)).map(|_| *r.pick(WIDE)).collect()
}

/// Replaces some of the names in a value by wide ones.
pub fn widen(r: &mut Rng, k: &mut Kserd<'static>) {
    if k.id.is_some() && r.flip() {
        k.id = Some(wide_name(r).into());
    } else if r.chance(1, 20) {
        k.id = Some("".into());
    }
    match &mut k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter_mut().for_each(|x| widen(r, x)),
        Value::Cntr(f) => {
            let v = std::mem::take(f).into_iter().map(|(n, mut x)| {
                widen(r, &mut x);
                (if r.flip() { wide_name(r).into() } else { n }, x)
            });
            *f = v.collect();
        }
        Value::Map(m) => {
            for (mut a, mut b) in std::mem::take(m) {
                widen(r, &mut a);
                widen(r, &mut b);
                m.insert(a, b);
            }
        }
        _ => (),
    }
}

/// A value that need not be spellable in the notation.
pub fn any_tree(r: &mut Rng, max: usize) -> Kserd<'static> {
    let mut k = tree(r, max);
    if r.chance(1, 4) {
        widen(r, &mut k);
    }
    k
}

/// A value and all values in it.
pub fn parts<'k>(k: &'k Kserd<'static>) -> Vec<&'k Kserd<'static>> {
    let mut all = vec![k];
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter().for_each(|x| all.extend(parts(x))),
        Value::Cntr(f) => f.values().for_each(|x| all.extend(parts(x))),
        Value::Map(m) => m.iter().for_each(|(a, b)| all.extend(parts(a).into_iter().chain(parts(b)))),
        _ => (),
    }
    all
}

pub fn size(k: &Kserd) -> usize {
    1 + match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter().map(size).sum(),
        Value::Cntr(f) => f.values().map(size).sum::<usize>(),
        Value::Map(m) => m.iter().map(|(a, b)| size(a) + size(b)).sum(),
        _ => 0,
    }
}

pub fn config(r: &mut Rng) -> J {
    let w = match r.below(10) {
        0 => -1,
        1 => 0,
        2 => 65535,
        3 => r.below(10) as i64,
        9 => r.below(300) as i64,
        _ => r.below(80) as i64,
    };
    let all = r.below(5);
    let flag = |r: &mut Rng| match all {
        0 => true,
        1 => false,
        _ => r.flip(),
    };
    json!({"ip": flag(r), "it": flag(r), "ic": flag(r), "is": flag(r), "im": flag(r), "w": w})
}

/// Uniform op record: every field is present so that the specification can read any of them.
pub fn op(o: &str, i: usize, r: usize, b: bool, cfg: J) -> J {
    json!({"o": o, "i": i, "r": r, "b": b, "cfg": cfg})
}

pub fn no_cfg() -> J {
    json!({"ip": false, "it": false, "ic": false, "is": false, "im": false, "w": 0})
}

pub fn ops(r: &mut Rng, nodes: usize, max: usize) -> Vec<J> {
    if r.chance(1, 8) {
        // every node from the top
        let lean = r.below(3);
        let pick = |r: &mut Rng| if r.chance(1, 3) { r.below(3) } else { lean };
        return (0..nodes).map(|i| op("repr", i, pick(r), false, no_cfg())).collect();
    }
    let n = r.below(max + 1);
    (0..n)
        .map(|_| {
            let i = if r.chance(1, 20) { nodes + r.below(3) } else { r.below(nodes) };
            match r.below(12) {
                0 => op("cfg", 0, 0, false, config(r)),
                1..=4 => op("id", i, 0, r.flip(), no_cfg()),
                _ => op("repr", i, r.below(3), false, no_cfg()),
            }
        })
        .collect()
}
