//! Exact values of numbers: sign * 2^e * 0.M with 128 binary digits M in eight 16 bit limbs.

use kserd::Number;
use serde_json::{json, Value as J};

fn record(c: &str, s: i32, e: i32, m: u128) -> J {
    let m: Vec<u32> = (0..8).map(|i| (m >> (112 - 16 * i)) as u32 & 0xffff).collect();
    json!({"c": c, "s": s, "e": e, "m": m})
}

fn finite(s: i32, mag: u128, scale: i32) -> J {
    if mag == 0 {
        return record("fin", 0, 0, 0);
    }
    let lz = mag.leading_zeros() as i32;
    record("fin", s, scale + 128 - lz, mag << lz)
}

pub fn of_u128(x: u128) -> J {
    finite(1, x, 0)
}

pub fn of_i128(x: i128) -> J {
    finite(x.signum() as i32, x.unsigned_abs(), 0)
}

pub fn of_f64(x: f64) -> J {
    if x.is_nan() {
        return record("nan", 0, 0, 0);
    }
    let s = if x < 0.0 { -1 } else { 1 };
    if x.is_infinite() {
        return record("inf", s, 0, 0);
    }
    let bits = x.to_bits();
    let (ex, frac) = ((bits >> 52 & 0x7ff) as i32, bits & ((1 << 52) - 1));
    match ex {
        0 => finite(s, frac as u128, -1074),
        _ => finite(s, (frac | 1 << 52) as u128, ex - 1075),
    }
}

pub fn of_num(n: &Number) -> J {
    match n {
        Number::Uint(x) => of_u128(*x),
        Number::Int(x) => of_i128(*x),
        Number::Float(x) => of_f64(*x),
    }
}

pub fn held(n: &Number) -> &'static str {
    match n {
        Number::Uint(_) => "u",
        Number::Int(_) => "i",
        Number::Float(x) if x.to_bits() == (-0.0f64).to_bits() => "z",
        Number::Float(x) if x.is_nan() && x.to_bits() != f64::NAN.to_bits() => "g",
        Number::Float(_) => "f",
    }
}

pub fn num(n: &Number) -> J {
    json!({"h": held(n), "v": of_num(n)})
}

/// Sign, exponent and 128 digits of a finite record.
fn parts(v: &J) -> (i64, i32, u128) {
    let m = v["m"].as_array().expect("harness: limbs");
    let m = m.iter().fold(0u128, |a, d| a << 16 | d.as_u64().unwrap() as u128);
    (v["s"].as_i64().unwrap(), v["e"].as_i64().unwrap() as i32, m)
}

fn magnitude(v: &J) -> u128 {
    let (s, e, m) = parts(v);
    match (s, e) {
        (0, _) => 0,
        (_, e) if (1..=128).contains(&e) => m >> (128 - e),
        _ => panic!("harness: not an integer {}", v),
    }
}

pub fn to_u128(v: &J) -> u128 {
    magnitude(v)
}

pub fn to_i128(v: &J) -> i128 {
    let m = magnitude(v);
    if v["s"] == -1 {
        (m as i128).wrapping_neg()
    } else {
        m as i128
    }
}

pub fn to_f64(v: &J) -> f64 {
    let (s, e, m) = parts(v);
    let sign = if s < 0 { 1u64 << 63 } else { 0 };
    match v["c"].as_str().unwrap() {
        "nan" => f64::NAN,
        "inf" => f64::from_bits(sign | 0x7ffu64 << 52),
        _ if s == 0 => 0.0,
        _ => {
            // value = m53 * 2^(e-53), or a multiple of 2^-1074
            let drop = if e - 53 >= -1074 { 75 } else { 128 - (e + 1074) };
            let top = (m >> drop) as u64;
            assert!(m == (top as u128) << drop, "harness: not a double {}", v);
            let b = if top >> 52 == 1 { ((e + 1022) as u64) << 52 | (top & ((1 << 52) - 1)) } else { top };
            f64::from_bits(sign | b)
        }
    }
}

pub fn to_num(n: &J) -> Number {
    let v = &n["v"];
    match n["h"].as_str().expect("harness: held") {
        "u" => Number::Uint(to_u128(v)),
        "i" => Number::Int(to_i128(v)),
        "z" => Number::Float(-0.0),
        "g" => Number::Float(f64::from_bits(0xfff8_0000_0000_0000 | 1)),
        _ => Number::Float(to_f64(v)),
    }
}
