//! K23: direct conversion of standard types, and the constructors.

use super::store::show;
use crate::exact;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, hex, st, unhex};
use kserd::{Kserd, ToKserd, ToKserdErr, Value};
use serde_json::{json, Value as J};

/// Built from a description of its contents.
trait Conv: ToKserd<'static> {
    fn build(d: &J) -> Self;
}

macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl Conv for $t {
            fn build(d: &J) -> Self {
                st(d, "b").parse().expect("harness: number")
            }
        }
    )*};
}
numbers!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);

impl Conv for () {
    fn build(_: &J) {}
}
impl Conv for bool {
    fn build(d: &J) -> Self {
        d["p"] == "true"
    }
}
impl Conv for char {
    fn build(d: &J) -> Self {
        st(d, "p").chars().next().expect("harness: char")
    }
}
impl Conv for String {
    fn build(d: &J) -> Self {
        st(d, "p").to_string()
    }
}
impl Conv for &'static str {
    fn build(d: &J) -> Self {
        Box::leak(st(d, "p").to_string().into_boxed_str())
    }
}
impl Conv for Kserd<'static> {
    fn build(d: &J) -> Self {
        from_tree(&d["v"])
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn build(d: &J) -> Self {
        arr(d, "c").iter().map(T::build).collect()
    }
}
impl<T: Conv> Conv for Box<T> {
    fn build(d: &J) -> Self {
        Box::new(T::build(&d["c"][0]))
    }
}
impl<T: Conv> Conv for Option<T> {
    fn build(d: &J) -> Self {
        d["c"].get(0).map(T::build)
    }
}
impl<T: Conv, E: Conv> Conv for Result<T, E> {
    fn build(d: &J) -> Self {
        match st(d, "k") {
            "ok" => Ok(T::build(&d["c"][0])),
            _ => Err(E::build(&d["c"][0])),
        }
    }
}
impl<T: Conv, const N: usize> Conv for [T; N]
where
    [T; N]: ToKserd<'static>,
{
    fn build(d: &J) -> Self {
        std::array::from_fn(|i| T::build(&d["c"][i]))
    }
}
macro_rules! tuples {
    ($($($t:ident $i:tt)+;)*) => {$(
        impl<$($t: Conv),+> Conv for ($($t,)+) {
            fn build(d: &J) -> Self {
                ($($t::build(&d["c"][$i]),)+)
            }
        }
    )*};
}
tuples! {
    A 0; A 0 B 1; A 0 B 1 C 2; A 0 B 1 C 2 D 3; A 0 B 1 C 2 D 3 E 4; A 0 B 1 C 2 D 3 E 4 F 5; A 0 B 1 C 2 D 3 E 4 F 5 G 6;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 M 9;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 M 9 K 10; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 M 9 K 10 L 11;
}

/// A type of our own whose conversion fails for a bad identity.
struct Fallible(String);
impl ToKserd<'static> for Fallible {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        Ok(Kserd::with_id(self.0, Value::Unit)?)
    }
}
impl Conv for Fallible {
    fn build(d: &J) -> Self {
        Fallible(st(d, "p").to_string())
    }
}

trait Visit {
    fn visit<T: Conv>(self) -> J;
}

struct Run<'a>(&'a J);
impl Visit for Run<'_> {
    fn visit<T: Conv>(self) -> J {
        match T::build(self.0).into_kserd() {
            Ok(k) => json!({"r": "ok", "v": show(&k)}),
            Err(_) => json!({"r": "err"}),
        }
    }
}

/// Continues with the wrapped type.
struct Wrap<'a, V>(&'a str, V);
impl<V: Visit> Visit for Wrap<'_, V> {
    fn visit<T: Conv>(self) -> J {
        let v = self.1;
        match self.0 {
            "vec" => v.visit::<Vec<T>>(),
            "box" => v.visit::<Box<T>>(),
            "opt" => v.visit::<Option<T>>(),
            "ok" => v.visit::<Result<T, String>>(),
            "err" => v.visit::<Result<u8, T>>(),
            "arr1" => v.visit::<[T; 1]>(),
            "arr2" => v.visit::<[T; 2]>(),
            "tup1" => v.visit::<(T,)>(),
            "tup2" => v.visit::<(T, u16)>(),
            w => panic!("harness: unknown wrapper {}", w),
        }
    }
}
const WRAPS: &[&str] = &["vec", "box", "opt", "ok", "err", "arr1", "arr2", "tup1", "tup2"];

/// The leaves that are wrapped twice.
const FEW: &[&str] = &["u8", "String", "char", "fallible"];
fn few<V: Visit>(l: &str, v: V) -> J {
    match l {
        "u8" => v.visit::<u8>(),
        "String" => v.visit::<String>(),
        "char" => v.visit::<char>(),
        "fallible" => v.visit::<Fallible>(),
        _ => panic!("harness: unknown leaf {}", l),
    }
}

const LEAVES: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "unit", "bool", "char",
    "String", "str", "kserd", "fallible",
];
fn leaf<V: Visit>(l: &str, v: V) -> J {
    match l {
        "u16" => v.visit::<u16>(),
        "u32" => v.visit::<u32>(),
        "u64" => v.visit::<u64>(),
        "u128" => v.visit::<u128>(),
        "usize" => v.visit::<usize>(),
        "i8" => v.visit::<i8>(),
        "i16" => v.visit::<i16>(),
        "i32" => v.visit::<i32>(),
        "i64" => v.visit::<i64>(),
        "i128" => v.visit::<i128>(),
        "isize" => v.visit::<isize>(),
        "f32" => v.visit::<f32>(),
        "f64" => v.visit::<f64>(),
        "unit" => v.visit::<()>(),
        "bool" => v.visit::<bool>(),
        "str" => v.visit::<&'static str>(),
        "kserd" => v.visit::<Kserd<'static>>(),
        _ => few(l, v),
    }
}

/// Tuples of every length and arrays of every length.
const ELEMS: &[&str] =
    &["u8", "String", "bool", "char", "i16", "f64", "unit", "opt u8", "vec u8", "str", "u64", "box i8"];
fn long(l: &str, v: Run) -> J {
    type L = (u8, String, bool, char, i16, f64, (), Option<u8>, Vec<u8>, &'static str, u64, Box<i8>);
    macro_rules! arrays {
        ($($n:literal)*) => {
            match l {
                "tuple1" => v.visit::<(u8,)>(),
                "tuple2" => v.visit::<(u8, String)>(),
                "tuple3" => v.visit::<(u8, String, bool)>(),
                "tuple4" => v.visit::<(u8, String, bool, char)>(),
                "tuple5" => v.visit::<(u8, String, bool, char, i16)>(),
                "tuple6" => v.visit::<(u8, String, bool, char, i16, f64)>(),
                "tuple7" => v.visit::<(u8, String, bool, char, i16, f64, ())>(),
                "tuple8" => v.visit::<(u8, String, bool, char, i16, f64, (), Option<u8>)>(),
                "tuple9" => v.visit::<(u8, String, bool, char, i16, f64, (), Option<u8>, Vec<u8>)>(),
                "tuple10" => v.visit::<(u8, String, bool, char, i16, f64, (), Option<u8>, Vec<u8>, &'static str)>(),
                "tuple11" => v.visit::<(u8, String, bool, char, i16, f64, (), Option<u8>, Vec<u8>, &'static str, u64)>(),
                "tuple12" => v.visit::<L>(),
                $(concat!("bytes", $n) => v.visit::<[u8; $n]>(), concat!("texts", $n) => v.visit::<[String; $n]>(),)*
                _ => panic!("harness: unknown type {}", l),
            }
        };
    }
    arrays!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}

/// The constructors, on borrowed and owned data.
fn construct(d: &J) -> Kserd<'static> {
    let p = || st(d, "p").to_string();
    let c = || arr(d, "c").iter().map(|x| from_tree(x));
    match st(d, "n") {
        "unit" => Kserd::new_unit(),
        "bool" => Kserd::new_bool(d["p"] == "true"),
        "str" => Kserd::new_str(&p()).into_owned(),
        "string" => Kserd::new_string(p()),
        "barr" => Kserd::new_barr(&unhex(&p())).into_owned(),
        "barrv" => Kserd::new_barrv(unhex(&p())),
        "new" => Kserd::new(from_tree(&d["c"][0]).val),
        "cntr" => Kserd::new_cntr(arr(d, "nm").iter().map(|n| n.as_str().unwrap().to_string()).zip(c())).expect("harness: names"),
        "map" => Kserd::new_map(arr(d, "ks").iter().map(|x| from_tree(x)).zip(c())),
        n => panic!("harness: unknown constructor {}", n),
    }
}

pub fn exec(input: &J) -> J {
    let (l, d) = (st(input, "l"), &input["d"]);
    if l == "new" {
        return json!({"r": "ok", "v": show(&construct(d))});
    }
    if l.starts_with("tuple") || l.starts_with("bytes") || l.starts_with("texts") {
        return long(l, Run(d));
    }
    let w: Vec<&str> = arr(input, "w").iter().map(|x| x.as_str().unwrap()).collect();
    match w.as_slice() {
        [] => leaf(l, Run(d)),
        [a] => leaf(l, Wrap(a, Run(d))),
        [a, b] => few(l, Wrap(a, Wrap(b, Run(d)))),
        _ => panic!("harness: too many wrappers"),
    }
}

fn node(k: &str, c: Vec<J>) -> J {
    json!({"k": k, "c": c})
}

fn number(n: &str, b: String) -> J {
    let q = match n.as_bytes()[0] {
        b'u' => exact::of_u128(b.parse().unwrap()),
        b'i' => exact::of_i128(b.parse().unwrap()),
        // an f32 is read as the double of its shortest decimal spelling
        _ => exact::of_f64(b.parse().unwrap()),
    };
    json!({"k": "num", "n": n, "b": b, "q": q})
}

fn of_leaf(r: &mut Rng, l: &str) -> J {
    macro_rules! int {
        ($t:ty) => {{
            let x = match r.below(4) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => r.below(10) as $t,
                _ => r.u128() as $t,
            };
            number(l, x.to_string())
        }};
    }
    match l {
        "u8" => int!(u8),
        "u16" => int!(u16),
        "u32" => int!(u32),
        "u64" => int!(u64),
        "u128" => int!(u128),
        "usize" => int!(usize),
        "i8" => int!(i8),
        "i16" => int!(i16),
        "i32" => int!(i32),
        "i64" => int!(i64),
        "i128" => int!(i128),
        "isize" => int!(isize),
        "f32" => {
            let x = if r.flip() { f32::from_bits(r.next() as u32) } else { gen::float(r) as f32 };
            number(l, x.to_string())
        }
        "f64" => number(l, gen::float(r).to_string()),
        "unit" => node("unit", vec![]),
        "bool" => json!({"k": "bool", "p": r.flip().to_string()}),
        "char" => {
            let c = match r.below(3) {
                0 => *r.pick(&['a', '\'', '"', '\n', '\u{0}', 'é', '\u{d7ff}']),
                1 => (r.below(128) as u8) as char,
                _ => char::from_u32(r.below(0xd800) as u32).unwrap(),
            };
            json!({"k": "char", "p": c.to_string()})
        }
        "String" | "str" => json!({"k": l, "p": gen::string(r)}),
        "kserd" => json!({"k": "kserd", "v": show(&gen::tree(r, 6))}),
        "fallible" => {
            let bad = *r.pick(&["a b", "x.y", "<", "=", "a,"]);
            json!({"k": "fallible", "p": if r.chance(1, 5) { bad.to_string() } else { gen::name(r) }})
        }
        _ => {
            let (w, l) = l.split_once(' ').expect("harness: type");
            of_type(r, l, &[w])
        }
    }
}

/// Random contents of a type; wrappers from the inside out.
fn of_type(r: &mut Rng, l: &str, w: &[&str]) -> J {
    let (outer, inner) = match w.split_last() {
        None => return of_leaf(r, l),
        Some((o, i)) => (*o, i),
    };
    let some = |r: &mut Rng, n: usize| (0..n).map(|_| of_type(r, l, inner)).collect::<Vec<_>>();
    match outer {
        "vec" => {
            let n = r.below(5);
            node("vec", some(r, n))
        }
        "box" => node("box", some(r, 1)),
        "opt" => {
            let n = r.below(2);
            node(["none", "some"][n], some(r, n))
        }
        "ok" | "err" if r.chance(2, 3) => node(outer, some(r, 1)),
        "ok" => node("err", vec![of_leaf(r, "String")]),
        "err" => node("ok", vec![of_leaf(r, "u8")]),
        "arr1" => node("array", some(r, 1)),
        "arr2" => node("array", some(r, 2)),
        "tup1" => node("tuple", some(r, 1)),
        "tup2" => {
            let a = of_type(r, l, inner);
            node("tuple", vec![a, of_leaf(r, "u16")])
        }
        _ => panic!("harness: unknown wrapper {}", outer),
    }
}

fn constructor(r: &mut Rng) -> J {
    let n = *r.pick(&["unit", "bool", "str", "string", "barr", "barrv", "new", "cntr", "map"]);
    let k = gen::tree(r, 10);
    let (mut p, mut nm, mut ks, mut c) = (String::new(), vec![], vec![], vec![]);
    match n {
        "bool" => p = r.flip().to_string(),
        "str" | "string" => p = gen::string(r),
        "barr" | "barrv" => p = hex(&gen::bytes(r)),
        "new" => c.push(show(&k)),
        "cntr" => {
            for x in gen::NAMES.iter().take(r.below(5)) {
                nm.push(J::from(*x));
                c.push(show(&gen::tree(r, 3)));
            }
        }
        "map" => {
            for i in 0..r.below(4) {
                ks.push(show(&Kserd::new_num(i as u8)));
                c.push(show(&gen::tree(r, 3)));
            }
        }
        _ => (),
    }
    json!({"k": "new", "n": n, "p": p, "nm": nm, "ks": ks, "c": c})
}

pub fn gen(r: &mut Rng) -> J {
    let (l, w, d): (String, Vec<&str>, J) = match r.below(8) {
        0 => ("new".into(), vec![], constructor(r)),
        1 => {
            let n = r.range(1, 12);
            (format!("tuple{}", n), vec![], node("tuple", ELEMS[..n].iter().map(|e| of_leaf(r, e)).collect()))
        }
        2 => {
            let (n, t) = (r.range(1, 32), r.flip());
            let e = if t { "u8" } else { "String" };
            (format!("{}{}", if t { "bytes" } else { "texts" }, n), vec![], node("array", (0..n).map(|_| of_leaf(r, e)).collect()))
        }
        3 | 4 => {
            let (l, w) = (*r.pick(LEAVES), if r.chance(1, 3) { vec![] } else { vec![*r.pick(WRAPS)] });
            let d = of_type(r, l, &w);
            (l.into(), w, d)
        }
        _ => {
            let (l, w) = (*r.pick(FEW), vec![*r.pick(WRAPS), *r.pick(WRAPS)]);
            let d = of_type(r, l, &w);
            (l.into(), w, d)
        }
    };
    json!({"l": l, "w": w, "d": d})
}

pub fn corrupt(obs: &J) -> Option<J> {
    let mut o = obs.clone();
    if o["r"] == "err" {
        o = json!({"r": "ok", "v": show(&Kserd::new_unit())});
    } else {
        let id = &mut o["v"]["id"];
        *id = if *id == json!([]) { json!(["Q"]) } else { json!([]) };
    }
    Some(o)
}
