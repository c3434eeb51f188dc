//! K27: what refusals say.

use super::{layout, names};
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, st, to_tree};
use kserd::encode::{Decoder, Deserialize, Encoder, Serialize};
use kserd::fmt::Formatter;
use kserd::{Kserd, Number, ToKserd, ToKserdErr, Value};
use serde::de::{self, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Error as _, SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_json::{json, Value as J};
use std::convert::TryFrom;
use std::fmt::{self, Display};

fn said<T, E: Display>(r: Result<T, E>) -> J {
    r.map_or_else(|e| json!([e.to_string()]), |_| json!([]))
}

/// A value that is refused: named `name` in the given shape, or refused by itself with `name` as reason.
struct Named(&'static str, usize);
const SHAPES: usize = 8;

impl Serialize for Named {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.0;
        match self.1 {
            0 => s.serialize_unit_struct(n),
            1 => s.serialize_unit_variant("T", 0, n),
            2 => s.serialize_newtype_struct(n, &1u8),
            3 => s.serialize_newtype_variant("T", 0, n, &1u8),
            4 => s.serialize_tuple_struct(n, 0)?.end(),
            5 => s.serialize_tuple_variant("T", 0, n, 0)?.end(),
            6 => s.serialize_struct(n, 0)?.end(),
            7 => s.serialize_struct_variant("T", 0, n, 0)?.end(),
            _ => Err(S::Error::custom(n)),
        }
    }
}

/// The same inside something else.
struct Within(&'static str, usize, usize);
const PLACES: usize = 13;

impl Serialize for Within {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let x = Named(self.0, self.1);
        match self.2 {
            0 => vec![x].serialize(s),
            1 => Some(x).serialize(s),
            2 => (1u8, x).serialize(s),
            3 => s.serialize_newtype_struct("N", &x),
            4 => s.serialize_newtype_variant("T", 1, "V", &x),
            5 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_key(&x)?;
                m.end()
            }
            6 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_key(&1u8)?;
                m.serialize_value(&x)?;
                m.end()
            }
            7 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry(&x, &1u8)?;
                m.end()
            }
            8 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry(&1u8, &x)?;
                m.end()
            }
            9 => {
                let mut m = s.serialize_struct("S", 1)?;
                m.serialize_field("a", &x)?;
                m.end()
            }
            10 => {
                let mut m = s.serialize_struct_variant("T", 1, "V", 1)?;
                m.serialize_field("a", &x)?;
                m.end()
            }
            11 => {
                let mut m = s.serialize_tuple_struct("S", 1)?;
                m.serialize_field(&x)?;
                m.end()
            }
            _ => {
                let mut m = s.serialize_tuple_variant("T", 1, "V", 1)?;
                m.serialize_field(&x)?;
                m.end()
            }
        }
    }
}

struct Refused<'a>(&'a str, bool);

impl<'a> ToKserd<'a> for Refused<'a> {
    fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr> {
        Ok(if self.1 { Kserd::with_id(self.0, Value::Unit)? } else { Kserd::new_cntr(vec![(self.0, Kserd::new_unit())])? })
    }
}

fn converted<'a>(s: &'a str, id: bool, out: &mut Vec<J>) {
    let x = || Refused(s, id);
    out.push(said(x().into_kserd()));
    out.push(said(vec![x(), x()].into_kserd()));
    out.push(said([x()].into_kserd()));
    out.push(said((1u8, x()).into_kserd()));
    out.push(said(Some(Box::new(x())).into_kserd()));
}

/// Decoding as an enum whose variant has the given form.
enum Form {
    Unit,
    Newtype,
    Tuple(usize),
    Struct,
}

struct Content;

impl<'de> Visitor<'de> for Content {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
}

impl<'de> Visitor<'de> for Form {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<IgnoredAny>()?;
        match self {
            Form::Unit => v.unit_variant(),
            Form::Newtype => v.newtype_variant::<IgnoredAny>().map(drop),
            Form::Tuple(n) => v.tuple_variant(n, Content),
            Form::Struct => v.struct_variant(&["a"], Content),
        }
    }
}

fn decoded(k: &Kserd<'static>) -> J {
    fn dec<'de, T: Deserialize<'de>>(k: &Kserd<'de>) -> J {
        said(k.clone().decode::<T>())
    }
    let as_enum = |f: Form| said(Decoder(k.clone()).deserialize_enum("T", &["V"], f));
    let mut m = json!({
        "u8": dec::<u8>(k), "u16": dec::<u16>(k), "u32": dec::<u32>(k), "u64": dec::<u64>(k), "u128": dec::<u128>(k),
        "i8": dec::<i8>(k), "i16": dec::<i16>(k), "i32": dec::<i32>(k), "i64": dec::<i64>(k), "i128": dec::<i128>(k),
        "f32": dec::<f32>(k), "f64": dec::<f64>(k), "char": dec::<char>(k),
        "unit struct": said(Decoder(k.clone()).deserialize_unit_struct("U", Content)),
        "unit enum variant": as_enum(Form::Unit), "newtype enum variant": as_enum(Form::Newtype),
        "tuple enum variant": [as_enum(Form::Tuple(0)), as_enum(Form::Tuple(1)), as_enum(Form::Tuple(2)), as_enum(Form::Tuple(3))],
        "struct enum variant": as_enum(Form::Struct), "as_u128": [], "as_i128": [],
    });
    if let Value::Num(n) = &k.val {
        m["as_u128"] = said(n.as_u128());
        m["as_i128"] = said(n.as_i128());
    }
    m
}

/// How a primitive found in place of something else is spelled.
fn found(k: &Kserd) -> J {
    let (f, p) = match &k.val {
        Value::Num(Number::Uint(x)) if *x <= u64::MAX as u128 => ("int", x.to_string()),
        Value::Num(Number::Int(x)) if (i64::MIN as i128..=i64::MAX as i128).contains(x) => ("int", x.to_string()),
        Value::Num(Number::Float(x)) => {
            let s = de::Unexpected::Float(*x).to_string();
            ("float", s.split('`').nth(1).unwrap_or("").to_string())
        }
        Value::Num(_) => ("wide", String::new()),
        Value::Str(s) => ("", format!("{:?}", s.as_str())),
        _ => ("", String::new()),
    };
    // std's own words for an integer that does not fit
    let (big, small) = (u8::try_from(300i32).unwrap_err(), u8::try_from(-1i32).unwrap_err());
    let n = k.val.str().map_or(0, |s| s.chars().count());
    json!({"f": f, "p": p, "n": n, "big": big.to_string(), "small": small.to_string()})
}

pub fn exec(input: &J) -> J {
    let text = |i: usize| -> &'static str { Box::leak(arr(input, "s")[i].as_str().unwrap().to_string().into_boxed_str()) };
    let mut m = vec![];
    match st(input, "o") {
        "id" => {
            let s = text(0);
            m.push(said(Kserd::with_id(s, Value::Unit)));
            m.push(said(Kserd::with_id(s.to_string(), Value::Seq(vec![]))));
            converted(s, true, &mut m);
            m.extend((0..SHAPES).map(|i| said(Kserd::enc(&Named(s, i)))));
            m.extend((0..PLACES).map(|i| said(Kserd::enc(&Within(s, i % SHAPES, i)))));
        }
        "custom" => {
            let s = text(0);
            m.push(said(Kserd::enc(&Named(s, SHAPES))));
            m.extend((0..PLACES).map(|i| said(Kserd::enc(&Within(s, SHAPES, i)))));
            m.push(json!([<<Decoder as Deserializer>::Error as de::Error>::custom(s).to_string()]));
        }
        "field" => {
            let names = arr(input, "s");
            let own = || names.iter().map(|n| (n.as_str().unwrap().to_string(), Kserd::new_unit()));
            m.push(said(Value::new_cntr(own())));
            m.push(said(Kserd::new_cntr(own())));
            m.push(said(Kserd::new_cntr(own()).map_err(ToKserdErr::from)));
            if names.len() == 1 {
                converted(text(0), false, &mut m);
            }
        }
        "text" => {
            let r = text(0).parse::<Number>();
            if let Err(e) = &r {
                m.push(json!([format!("{:?}", e)]));
            }
            m.push(said(r));
        }
        "nokey" => {
            let mut s = Encoder.serialize_map(None).unwrap();
            for i in 0..input["n"].as_u64().unwrap() {
                s.serialize_key(&i).unwrap();
                s.serialize_value(&i).unwrap();
            }
            m.push(said(s.serialize_value(&1u8)));
        }
        "dec" => {
            let k = from_tree(&input["tree"]);
            return json!({"r": "ok", "x": found(&k), "m": decoded(&k)});
        }
        _ => {
            let k = from_tree(&input["tree"]);
            let mut f = Formatter::new(&k);
            for op in arr(input, "ops") {
                m.push(layout::explain(&mut f, op));
            }
        }
    }
    json!({"r": "ok", "m": m})
}

pub fn gen(r: &mut Rng) -> J {
    match r.below(10) {
        0 | 1 => json!({"o": "id", "s": [names::text(r)]}),
        2 => json!({"o": "custom", "s": [gen::string(r)]}),
        3 => json!({"o": "field", "s": [names::text(r)]}),
        4 => {
            let n = r.below(6);
            json!({"o": "field", "s": (0..n).map(|_| if r.flip() { gen::name(r) } else { names::text(r) }).collect::<Vec<_>>()})
        }
        5 => json!({"o": "text", "s": [match r.below(4) {
            0 => gen::string(r),
            1 => gen::number(r).to_string() + *r.pick(&["", "x", " ", "-", ".", "e", "_"]),
            2 => (0..r.below(5)).map(|_| *r.pick(&['1', '0', '.', 'e', '-', '_', 'i'])).collect(),
            _ => "9".repeat(r.range(36, 42)),
        }]}),
        6 if r.chance(1, 5) => json!({"o": "nokey", "n": r.below(4)}),
        7 | 8 => {
            let max = *r.pick(&[1, 1, 2, 3, 5]);
            let mut k = gen::any_tree(r, max);
            if let (true, Value::Tuple(_) | Value::Unit | Value::Cntr(_)) = (r.flip(), &k.val) {
                k.id = Some("V".into());
            }
            json!({"o": "dec", "tree": to_tree(&k, true)})
        }
        _ => {
            let max = *r.pick(&[3, 8, 20]);
            let k = gen::tree(r, max);
            let n = gen::size(&k);
            json!({"o": "req", "tree": to_tree(&k, true), "ops": gen::ops(r, n, 12)})
        }
    }
}

pub fn corrupt(obs: &J) -> Option<J> {
    fn first(j: &mut J) -> Option<&mut String> {
        match j {
            J::String(s) => Some(s),
            J::Array(v) => v.iter_mut().find_map(first),
            J::Object(v) => v.iter_mut().filter(|(k, _)| *k != "res").find_map(|(_, x)| first(x)),
            _ => None,
        }
    }
    let mut o = obs.clone();
    if let Some(s) = first(&mut o["m"]) {
        s.push('.');
        return Some(o);
    }
    let m = o["m"].get_mut(0)?;
    *if m.is_object() { &mut m["msg"] } else { m } = json!(["refused"]);
    Some(o)
}
