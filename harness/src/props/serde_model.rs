//! K14..K17: encoding and decoding through the serde data model.
//!
//! Types and data are JSON descriptions; the visitors behave as those of serde's derive macro.
//! Data: {k, n, p, q, r, f, ks, c}, types: {k, n, f, c, vs}; see KSerde in the specification.

use super::layout;
use crate::exact;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, hex, st, to_tree, unhex};
use kserd::encode::Decoder;
use kserd::{Kserd, Number, Value};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::fmt;
use std::sync::Mutex;

// ---- names with the static lifetime serde asks for -----------------------

fn intern(s: &str) -> &'static str {
    static NAMES: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = NAMES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), x);
    x
}

fn intern_list(v: &[J]) -> &'static [&'static str] {
    static LISTS: Mutex<Option<HashMap<String, &'static [&'static str]>>> = Mutex::new(None);
    let key = J::from(v.to_vec()).to_string();
    let mut g = LISTS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&key) {
        return x;
    }
    let l: Vec<&'static str> = v.iter().map(|x| intern(x.as_str().unwrap())).collect();
    let l: &'static [&'static str] = Box::leak(l.into_boxed_slice());
    m.insert(key, l);
    l
}

// ---- data ----------------------------------------------------------------

pub fn data(k: &str, n: &str, p: &str, q: J, r: J, f: Vec<J>, ks: Vec<J>, c: Vec<J>) -> J {
    json!({"k": k, "n": n, "p": p, "q": q, "r": r, "f": f, "ks": ks, "c": c})
}

fn plain(k: &str, n: &str, p: &str) -> J {
    data(k, n, p, exact::of_u128(0), exact::of_u128(0), vec![], vec![], vec![])
}

fn group(k: &str, n: &str, c: Vec<J>) -> J {
    data(k, n, "", exact::of_u128(0), exact::of_u128(0), vec![], vec![], c)
}

fn fields(k: &str, n: &str, f: Vec<J>, c: Vec<J>) -> J {
    data(k, n, "", exact::of_u128(0), exact::of_u128(0), f, vec![], c)
}

fn map(ks: Vec<J>, c: Vec<J>) -> J {
    data("map", "", "", exact::of_u128(0), exact::of_u128(0), vec![], ks, c)
}

fn int(n: &str, q: J) -> J {
    data("int", n, "", q, exact::of_u128(0), vec![], vec![], vec![])
}

fn f32_data(x: f32) -> J {
    let reading: f64 = format!("{:e}", x).parse().unwrap();
    data("f32", "f32", "", exact::of_f64(x as f64), exact::of_f64(reading), vec![], vec![], vec![])
}

fn f64_data(x: f64) -> J {
    data("f64", "f64", "", exact::of_f64(x), exact::of_u128(0), vec![], vec![], vec![])
}

// ---- encoding ------------------------------------------------------------

struct Ser<'a>(&'a J);

struct RawBytes(Vec<u8>);
impl Serialize for RawBytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

/// Text that prints itself one character after another.
struct Pieces<'a>(&'a str);
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.chars().try_for_each(|c| write!(f, "{}", c))
    }
}

impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let d = self.0;
        let name = intern(st(d, "n"));
        let c = arr(d, "c");
        let f = arr(d, "f");
        let u = || exact::to_u128(&d["q"]);
        let i = || exact::to_i128(&d["q"]);
        match st(d, "k") {
            "bool" => s.serialize_bool(st(d, "p") == "true"),
            "int" => match name {
                "u8" => s.serialize_u8(u() as u8),
                "u16" => s.serialize_u16(u() as u16),
                "u32" => s.serialize_u32(u() as u32),
                "u64" => s.serialize_u64(u() as u64),
                "u128" => s.serialize_u128(u()),
                "i8" => s.serialize_i8(i() as i8),
                "i16" => s.serialize_i16(i() as i16),
                "i32" => s.serialize_i32(i() as i32),
                "i64" => s.serialize_i64(i() as i64),
                "i128" => s.serialize_i128(i()),
                x => panic!("harness: integer type {}", x),
            },
            "f32" => s.serialize_f32(exact::to_f64(&d["q"]) as f32),
            "f64" => s.serialize_f64(exact::to_f64(&d["q"])),
            "char" => s.serialize_char(st(d, "p").chars().next().unwrap()),
            // text is given whole or, like the types that print themselves, in pieces
            "str" | "bstr" if st(d, "p").chars().count() % 2 == 1 => s.collect_str(&Pieces(st(d, "p"))),
            "str" | "bstr" => s.serialize_str(st(d, "p")),
            "bytes" => RawBytes(unhex(st(d, "p"))).serialize(s),
            "unit" => s.serialize_unit(),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&Ser(&c[0])),
            "seq" => {
                let mut q = s.serialize_seq(if c.len() % 2 == 0 { Some(c.len()) } else { None })?;
                for x in c {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(c.len())?;
                for x in c {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(if c.len() % 2 == 0 { Some(c.len()) } else { None })?;
                for (i, (k, v)) in arr(d, "ks").iter().zip(c).enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Ser(k), &Ser(v))?;
                    } else {
                        q.serialize_key(&Ser(k))?;
                        q.serialize_value(&Ser(v))?;
                    }
                }
                q.end()
            }
            "ustruct" => s.serialize_unit_struct(name),
            "nstruct" => s.serialize_newtype_struct(name, &Ser(&c[0])),
            "tstruct" => {
                let mut q = s.serialize_tuple_struct(name, c.len())?;
                for x in c {
                    ser::SerializeTupleStruct::serialize_field(&mut q, &Ser(x))?;
                }
                ser::SerializeTupleStruct::end(q)
            }
            "struct" => {
                let mut q = s.serialize_struct(name, c.len())?;
                for (n, x) in f.iter().zip(c) {
                    q.serialize_field(intern(n.as_str().unwrap()), &Ser(x))?;
                }
                q.end()
            }
            "uvar" => s.serialize_unit_variant("E", 0, name),
            "nvar" => s.serialize_newtype_variant("E", 1, name, &Ser(&c[0])),
            "tvar" => {
                let mut q = s.serialize_tuple_variant("E", 2, name, c.len())?;
                for x in c {
                    ser::SerializeTupleVariant::serialize_field(&mut q, &Ser(x))?;
                }
                ser::SerializeTupleVariant::end(q)
            }
            "svar" => {
                let mut q = s.serialize_struct_variant("E", 3, name, c.len())?;
                for (n, x) in f.iter().zip(c) {
                    ser::SerializeStructVariant::serialize_field(&mut q, intern(n.as_str().unwrap()), &Ser(x))?;
                }
                ser::SerializeStructVariant::end(q)
            }
            x => panic!("harness: data kind {}", x),
        }
    }
}

// ---- decoding ------------------------------------------------------------

#[derive(Clone, Copy)]
struct Ty<'a>(&'a J);

impl<'de, 'a> DeserializeSeed<'de> for Ty<'a> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        let t = self.0;
        let name = intern(st(t, "n"));
        let c = arr(t, "c");
        Ok(match st(t, "k") {
            "bool" => plain("bool", "", &bool::deserialize(d)?.to_string()),
            "int" => int(
                name,
                match name {
                    "u8" => exact::of_u128(u8::deserialize(d)? as u128),
                    "u16" => exact::of_u128(u16::deserialize(d)? as u128),
                    "u32" => exact::of_u128(u32::deserialize(d)? as u128),
                    "u64" => exact::of_u128(u64::deserialize(d)? as u128),
                    "u128" => exact::of_u128(u128::deserialize(d)?),
                    "i8" => exact::of_i128(i8::deserialize(d)? as i128),
                    "i16" => exact::of_i128(i16::deserialize(d)? as i128),
                    "i32" => exact::of_i128(i32::deserialize(d)? as i128),
                    "i64" => exact::of_i128(i64::deserialize(d)? as i128),
                    "i128" => exact::of_i128(i128::deserialize(d)?),
                    x => panic!("harness: integer type {}", x),
                },
            ),
            "f32" => f32_data(f32::deserialize(d)?),
            "f64" => f64_data(f64::deserialize(d)?),
            "char" => plain("char", "", &char::deserialize(d)?.to_string()),
            "str" => plain("str", "", &String::deserialize(d)?),
            "bstr" => plain("bstr", "", <&'de str>::deserialize(d)?),
            "bytes" => plain("bytes", "", &hex(&d.deserialize_byte_buf(BytesVisitor)?)),
            "unit" => {
                <()>::deserialize(d)?;
                plain("unit", "", "")
            }
            "opt" => d.deserialize_option(OptVisitor(Ty(&c[0])))?,
            "seq" => d.deserialize_seq(SeqVisitor(Ty(&c[0])))?,
            "tuple" => group("tuple", "", d.deserialize_tuple(c.len(), ListVisitor(c))?),
            "map" => d.deserialize_map(MapVisitor(Ty(&c[0]), Ty(&c[1])))?,
            "ustruct" => {
                d.deserialize_unit_struct(name, UnitVisitor)?;
                plain("ustruct", name, "")
            }
            "nstruct" => group("nstruct", name, vec![d.deserialize_newtype_struct(name, NewtypeVisitor(Ty(&c[0])))?]),
            "tstruct" => group("tstruct", name, d.deserialize_tuple_struct(name, c.len(), ListVisitor(c))?),
            "struct" => {
                let f = arr(t, "f");
                fields("struct", name, f.clone(), d.deserialize_struct(name, intern_list(f), StructVisitor(t))?)
            }
            "any" => d.deserialize_any(AnyVisitor)?,
            "enum" => {
                let names: Vec<J> = arr(t, "vs").iter().map(|v| v["n"].clone()).collect();
                d.deserialize_enum(name, intern_list(&names), EnumVisitor(t))?
            }
            x => panic!("harness: type kind {}", x),
        })
    }
}

macro_rules! expecting {
    ($s:expr) => {
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str($s)
        }
    };
}

/// Takes whatever the value presents itself as.
#[derive(Clone, Copy)]
struct AnyVisitor;
fn any(n: &str, p: &str, q: J, ks: Vec<J>, c: Vec<J>) -> J {
    data("any", n, p, q, exact::of_u128(0), vec![], ks, c)
}
fn any_word<E>(n: &str, p: &str) -> Result<J, E> {
    Ok(any(n, p, exact::of_u128(0), vec![], vec![]))
}
fn any_num<E>(n: &str, q: J) -> Result<J, E> {
    Ok(any(n, "", q, vec![], vec![]))
}
impl<'de> DeserializeSeed<'de> for AnyVisitor {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = J;
    expecting!("anything");
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<J, E> {
        any_word("bool", &v.to_string())
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<J, E> {
        any_num("u64", exact::of_u128(v as u128))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<J, E> {
        any_num("i64", exact::of_i128(v as i128))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<J, E> {
        any_num("u128", exact::of_u128(v))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<J, E> {
        any_num("i128", exact::of_i128(v))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<J, E> {
        any_num("f64", exact::of_f64(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<J, E> {
        any_word("str", v)
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<J, E> {
        any_word("bstr", v)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<J, E> {
        any_word("bytes", &hex(v))
    }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<J, E> {
        any_word("bbytes", &hex(v))
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        any_word("unit", "")
    }
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        any_word("none", "")
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        Ok(any("some", "", exact::of_u128(0), vec![], vec![self.deserialize(d)?]))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        Ok(any("new", "", exact::of_u128(0), vec![], vec![self.deserialize(d)?]))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut c = vec![];
        while let Some(x) = a.next_element_seed(self)? {
            c.push(x);
        }
        Ok(any("seq", "", exact::of_u128(0), vec![], c))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let (mut ks, mut c) = (vec![], vec![]);
        while let Some((k, v)) = a.next_entry_seed(self, self)? {
            ks.push(k);
            c.push(v);
        }
        Ok(any("map", "", exact::of_u128(0), ks, c))
    }
}

struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = Vec<u8>;
    expecting!("bytes");
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
}

struct UnitVisitor;
impl<'de> Visitor<'de> for UnitVisitor {
    type Value = ();
    expecting!("unit struct");
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
}

struct OptVisitor<'a>(Ty<'a>);
impl<'de, 'a> Visitor<'de> for OptVisitor<'a> {
    type Value = J;
    expecting!("option");
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        Ok(plain("none", "", ""))
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        Ok(plain("none", "", ""))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        Ok(group("some", "", vec![self.0.deserialize(d)?]))
    }
}

struct SeqVisitor<'a>(Ty<'a>);
impl<'de, 'a> Visitor<'de> for SeqVisitor<'a> {
    type Value = J;
    expecting!("a sequence");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut c = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            c.push(x);
        }
        Ok(group("seq", "", c))
    }
}

struct ListVisitor<'a>(&'a [J]);
impl<'de, 'a> Visitor<'de> for ListVisitor<'a> {
    type Value = Vec<J>;
    expecting!("a tuple");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<J>, A::Error> {
        let mut c = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Ty(t))? {
                Some(x) => c.push(x),
                None => return Err(de::Error::invalid_length(i, &"more elements")),
            }
        }
        Ok(c)
    }
}

struct MapVisitor<'a>(Ty<'a>, Ty<'a>);
impl<'de, 'a> Visitor<'de> for MapVisitor<'a> {
    type Value = J;
    expecting!("a map");
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let (mut ks, mut c) = (vec![], vec![]);
        while let Some((k, v)) = a.next_entry_seed(self.0, self.1)? {
            match ks.iter().position(|x| *x == k) {
                Some(i) => c[i] = v,
                None => {
                    ks.push(k);
                    c.push(v);
                }
            }
        }
        Ok(map(ks, c))
    }
}

struct NewtypeVisitor<'a>(Ty<'a>);
impl<'de, 'a> Visitor<'de> for NewtypeVisitor<'a> {
    type Value = J;
    expecting!("a newtype struct");
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        self.0.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        a.next_element_seed(self.0)?.ok_or_else(|| de::Error::invalid_length(0, &"one element"))
    }
}

/// Field or variant name; None for an unknown field.
struct Ident<'a> {
    names: &'a [J],
    variants: bool,
}
impl<'de, 'a> DeserializeSeed<'de> for Ident<'a> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de, 'a> Visitor<'de> for Ident<'a> {
    type Value = Option<usize>;
    expecting!("an identifier");
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.names.len() {
            Ok(Some(v as usize))
        } else if self.variants {
            Err(de::Error::custom("no such variant"))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| n == v) {
            None if self.variants => Err(de::Error::custom("no such variant")),
            x => Ok(x),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| n.as_str().unwrap().as_bytes() == v) {
            None if self.variants => Err(de::Error::custom("no such variant")),
            x => Ok(x),
        }
    }
}

/// Fields f, c of a struct or a struct variant.
struct StructVisitor<'a>(&'a J);
impl<'de, 'a> Visitor<'de> for StructVisitor<'a> {
    type Value = Vec<J>;
    expecting!("a struct");
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<J>, A::Error> {
        ListVisitor(arr(self.0, "c")).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<J>, A::Error> {
        let (names, types) = (arr(self.0, "f"), arr(self.0, "c"));
        let mut got: Vec<Option<J>> = vec![None; names.len()];
        while let Some(i) = a.next_key_seed(Ident { names, variants: false })? {
            match i {
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(intern(names[i].as_str().unwrap()))),
                Some(i) => got[i] = Some(a.next_value_seed(Ty(&types[i]))?),
                None => drop(a.next_value::<de::IgnoredAny>()?),
            }
        }
        (got.into_iter().enumerate())
            .map(|(i, x)| match x {
                Some(x) => Ok(x),
                None if types[i]["k"] == "opt" => Ok(plain("none", "", "")),
                None => Err(de::Error::missing_field(intern(names[i].as_str().unwrap()))),
            })
            .collect()
    }
}

struct EnumVisitor<'a>(&'a J);
impl<'de, 'a> Visitor<'de> for EnumVisitor<'a> {
    type Value = J;
    expecting!("an enum");
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let vs = arr(self.0, "vs");
        let names: Vec<J> = vs.iter().map(|v| v["n"].clone()).collect();
        let (i, rest) = a.variant_seed(Ident { names: &names, variants: true })?;
        let v = &vs[i.expect("harness: variant")];
        let (name, c) = (st(v, "n"), arr(v, "c"));
        Ok(match st(v, "k") {
            "uvar" => {
                rest.unit_variant()?;
                plain("uvar", name, "")
            }
            "nvar" => group("nvar", name, vec![rest.newtype_variant_seed(Ty(&c[0]))?]),
            "tvar" => group("tvar", name, rest.tuple_variant(c.len(), ListVisitor(c))?),
            _ => {
                let f = arr(v, "f");
                fields("svar", name, f.clone(), rest.struct_variant(intern_list(f), StructVisitor(v))?)
            }
        })
    }
}

// ---- real derived types --------------------------------------------------

pub mod real {
    //! Types of serde's derive macro, with their descriptions: they keep the visitors above honest.
    use super::*;
    use std::collections::BTreeMap;

    pub trait Real: Serialize + for<'de> Deserialize<'de> {
        fn ty() -> J;
        fn to(&self) -> J;
        fn from(d: &J) -> Self;
    }

    fn ty(k: &str, n: &str, f: &[&str], c: Vec<J>, vs: Vec<J>) -> J {
        json!({"k": k, "n": n, "f": f, "c": c, "vs": vs})
    }

    macro_rules! ints {
        ($($t:ident $via:ident $of:ident $to:ident),*) => {$(
            impl Real for $t {
                fn ty() -> J { ty("int", stringify!($t), &[], vec![], vec![]) }
                fn to(&self) -> J { int(stringify!($t), exact::$of(*self as $via)) }
                fn from(d: &J) -> Self { exact::$to(&d["q"]) as $t }
            }
        )*};
    }
    ints!(u8 u128 of_u128 to_u128, u32 u128 of_u128 to_u128, u64 u128 of_u128 to_u128, u128 u128 of_u128 to_u128,
          i8 i128 of_i128 to_i128, i64 i128 of_i128 to_i128, i128 i128 of_i128 to_i128);

    impl Real for bool {
        fn ty() -> J { ty("bool", "", &[], vec![], vec![]) }
        fn to(&self) -> J { plain("bool", "", &self.to_string()) }
        fn from(d: &J) -> Self { st(d, "p") == "true" }
    }
    impl Real for f64 {
        fn ty() -> J { ty("f64", "f64", &[], vec![], vec![]) }
        fn to(&self) -> J { f64_data(*self) }
        fn from(d: &J) -> Self { exact::to_f64(&d["q"]) }
    }
    impl Real for f32 {
        fn ty() -> J { ty("f32", "f32", &[], vec![], vec![]) }
        fn to(&self) -> J { f32_data(*self) }
        fn from(d: &J) -> Self { exact::to_f64(&d["q"]) as f32 }
    }
    impl Real for char {
        fn ty() -> J { ty("char", "", &[], vec![], vec![]) }
        fn to(&self) -> J { plain("char", "", &self.to_string()) }
        fn from(d: &J) -> Self { st(d, "p").chars().next().unwrap() }
    }
    impl Real for String {
        fn ty() -> J { ty("str", "", &[], vec![], vec![]) }
        fn to(&self) -> J { plain("str", "", self) }
        fn from(d: &J) -> Self { st(d, "p").to_string() }
    }
    impl Real for () {
        fn ty() -> J { ty("unit", "", &[], vec![], vec![]) }
        fn to(&self) -> J { plain("unit", "", "") }
        fn from(_: &J) -> Self {}
    }
    impl<T: Real> Real for Option<T> {
        fn ty() -> J { ty("opt", "", &[], vec![T::ty()], vec![]) }
        fn to(&self) -> J {
            match self {
                None => plain("none", "", ""),
                Some(x) => group("some", "", vec![x.to()]),
            }
        }
        fn from(d: &J) -> Self { arr(d, "c").first().map(T::from) }
    }
    impl<T: Real> Real for Vec<T> {
        fn ty() -> J { ty("seq", "", &[], vec![T::ty()], vec![]) }
        fn to(&self) -> J { group("seq", "", self.iter().map(T::to).collect()) }
        fn from(d: &J) -> Self { arr(d, "c").iter().map(T::from).collect() }
    }
    impl<T: Real> Real for Box<T> {
        fn ty() -> J { T::ty() }
        fn to(&self) -> J { (**self).to() }
        fn from(d: &J) -> Self { Box::new(T::from(d)) }
    }
    impl<A: Real, B: Real> Real for (A, B) {
        fn ty() -> J { ty("tuple", "", &[], vec![A::ty(), B::ty()], vec![]) }
        fn to(&self) -> J { group("tuple", "", vec![self.0.to(), self.1.to()]) }
        fn from(d: &J) -> Self { (A::from(&d["c"][0]), B::from(&d["c"][1])) }
    }
    impl<A: Real> Real for (A,) {
        fn ty() -> J { ty("tuple", "", &[], vec![A::ty()], vec![]) }
        fn to(&self) -> J { group("tuple", "", vec![self.0.to()]) }
        fn from(d: &J) -> Self { (A::from(&d["c"][0]),) }
    }
    impl<A: Real> Real for [A; 3] {
        fn ty() -> J { ty("tuple", "", &[], vec![A::ty(), A::ty(), A::ty()], vec![]) }
        fn to(&self) -> J { group("tuple", "", self.iter().map(A::to).collect()) }
        fn from(d: &J) -> Self { [A::from(&d["c"][0]), A::from(&d["c"][1]), A::from(&d["c"][2])] }
    }
    impl<K: Real + Ord, V: Real> Real for BTreeMap<K, V> {
        fn ty() -> J { ty("map", "", &[], vec![K::ty(), V::ty()], vec![]) }
        fn to(&self) -> J { map(self.keys().map(K::to).collect(), self.values().map(V::to).collect()) }
        fn from(d: &J) -> Self { arr(d, "ks").iter().map(K::from).zip(arr(d, "c").iter().map(V::from)).collect() }
    }

    macro_rules! structs {
        ($($n:ident { $($f:ident : $t:ty),* })*) => {$(
            #[derive(Serialize, Deserialize)]
            pub struct $n { $($f: $t),* }
            impl Real for $n {
                fn ty() -> J { ty("struct", stringify!($n), &[$(stringify!($f)),*], vec![$(<$t>::ty()),*], vec![]) }
                fn to(&self) -> J { fields("struct", stringify!($n), vec![$(stringify!($f).into()),*], vec![$(self.$f.to()),*]) }
                #[allow(unused_variables, unused_mut, unused_assignments)]
                fn from(d: &J) -> Self {
                    let mut i = 0;
                    $(let $f = <$t as Real>::from(&d["c"][i]); i += 1;)*
                    $n { $($f),* }
                }
            }
        )*};
    }
    structs! {
        Empty {}
        Point { x: i64, y: i64 }
        Rec { name: String, tags: Vec<String>, opt: Option<u8>, at: Point, flag: bool }
        Deep { m: BTreeMap<String, Vec<Point>>, c: char, e: Option<Kind>, t: (u8, f64), n: Wrap, u: Marker, k: Option<Option<u8>> }
        Nums { a: u128, b: i128, c: f32, d: u8, e: i8, f: u32 }
    }

    #[derive(Serialize, Deserialize)]
    pub struct Marker;
    impl Real for Marker {
        fn ty() -> J { ty("ustruct", "Marker", &[], vec![], vec![]) }
        fn to(&self) -> J { plain("ustruct", "Marker", "") }
        fn from(_: &J) -> Self { Marker }
    }
    #[derive(Serialize, Deserialize)]
    pub struct Wrap(Option<i8>);
    impl Real for Wrap {
        fn ty() -> J { ty("nstruct", "Wrap", &[], vec![Option::<i8>::ty()], vec![]) }
        fn to(&self) -> J { group("nstruct", "Wrap", vec![self.0.to()]) }
        fn from(d: &J) -> Self { Wrap(<Option<i8> as Real>::from(&d["c"][0])) }
    }
    #[derive(Serialize, Deserialize)]
    pub struct Pair(u8, Vec<Kind>);
    impl Real for Pair {
        fn ty() -> J { ty("tstruct", "Pair", &[], vec![u8::ty(), Vec::<Kind>::ty()], vec![]) }
        fn to(&self) -> J { group("tstruct", "Pair", vec![self.0.to(), self.1.to()]) }
        fn from(d: &J) -> Self { Pair(<u8 as Real>::from(&d["c"][0]), <Vec<Kind> as Real>::from(&d["c"][1])) }
    }
    #[derive(Serialize, Deserialize)]
    pub struct Nothing();
    impl Real for Nothing {
        fn ty() -> J { ty("tstruct", "Nothing", &[], vec![], vec![]) }
        fn to(&self) -> J { group("tstruct", "Nothing", vec![]) }
        fn from(_: &J) -> Self { Nothing() }
    }
    #[derive(Serialize, Deserialize)]
    pub enum Kind {
        None,
        Some(u8),
        One((u8,)),
        Two(String, Option<bool>),
        Rec { a: f64, b: Option<char> },
        Bare {},
        Inner(Box<Small>),
    }
    #[derive(Serialize, Deserialize)]
    pub enum Small {
        None,
        Some(u8),
    }
    impl Real for Small {
        fn ty() -> J {
            let v = |k: &str, n: &str, c: Vec<J>| json!({"k": k, "n": n, "f": [], "c": c, "vs": []});
            ty("enum", "Small", &[], vec![], vec![v("uvar", "None", vec![]), v("nvar", "Some", vec![u8::ty()])])
        }
        fn to(&self) -> J {
            match self {
                Small::None => plain("uvar", "None", ""),
                Small::Some(x) => group("nvar", "Some", vec![x.to()]),
            }
        }
        fn from(d: &J) -> Self {
            match st(d, "n") {
                "None" => Small::None,
                _ => Small::Some(<u8 as Real>::from(&d["c"][0])),
            }
        }
    }
    impl Real for Kind {
        fn ty() -> J {
            let v = |k: &str, n: &str, f: &[&str], c: Vec<J>| json!({"k": k, "n": n, "f": f, "c": c, "vs": []});
            ty("enum", "Kind", &[], vec![], vec![
                v("uvar", "None", &[], vec![]),
                v("nvar", "Some", &[], vec![u8::ty()]),
                v("nvar", "One", &[], vec![<(u8,)>::ty()]),
                v("tvar", "Two", &[], vec![String::ty(), Option::<bool>::ty()]),
                v("svar", "Rec", &["a", "b"], vec![f64::ty(), Option::<char>::ty()]),
                v("svar", "Bare", &[], vec![]),
                v("nvar", "Inner", &[], vec![Box::<Small>::ty()]),
            ])
        }
        fn to(&self) -> J {
            match self {
                Kind::None => plain("uvar", "None", ""),
                Kind::Some(x) => group("nvar", "Some", vec![x.to()]),
                Kind::One(x) => group("nvar", "One", vec![x.to()]),
                Kind::Two(x, y) => group("tvar", "Two", vec![x.to(), y.to()]),
                Kind::Rec { a, b } => fields("svar", "Rec", vec!["a".into(), "b".into()], vec![a.to(), b.to()]),
                Kind::Bare {} => fields("svar", "Bare", vec![], vec![]),
                Kind::Inner(x) => group("nvar", "Inner", vec![x.to()]),
            }
        }
        fn from(d: &J) -> Self {
            let c = arr(d, "c");
            match st(d, "n") {
                "None" => Kind::None,
                "Some" => Kind::Some(<u8 as Real>::from(&c[0])),
                "One" => Kind::One(<(u8,) as Real>::from(&c[0])),
                "Two" => Kind::Two(<String as Real>::from(&c[0]), <Option<bool> as Real>::from(&c[1])),
                "Rec" => Kind::Rec { a: <f64 as Real>::from(&c[0]), b: <Option<char> as Real>::from(&c[1]) },
                "Bare" => Kind::Bare {},
                _ => Kind::Inner(Real::from(&c[0])),
            }
        }
    }

    fn dec<T: Real>(k: Kserd) -> Result<J, ()> {
        k.decode::<T>().map(|x| x.to()).map_err(drop)
    }
    fn enc<T: Real>(d: &J) -> Result<Kserd<'static>, ()> {
        Kserd::enc(&T::from(d)).map_err(drop)
    }

    type Entry = (fn() -> J, fn(&J) -> Result<Kserd<'static>, ()>, fn(Kserd) -> Result<J, ()>);
    macro_rules! table {
        ($($t:ty),*) => { &[$((<$t>::ty, enc::<$t>, dec::<$t>)),*] };
    }
    pub const TABLE: &[Entry] = table!(
        Empty, Point, Rec, Deep, Nums, Marker, Wrap, Pair, Nothing, Kind, Vec<Kind>, Option<Kind>,
        BTreeMap<u8, Kind>, BTreeMap<char, u8>, BTreeMap<String, Rec>, (Kind, Point), [Point; 3], (f32,), Option<Option<()>>, BTreeMap<(u8, bool), i8>
    );
}

// ---- execution -----------------------------------------------------------

fn real_of(input: &J) -> Option<usize> {
    input["real"].as_i64().filter(|i| *i >= 0).map(|i| i as usize)
}

fn encode(input: &J, d: &J) -> Result<Kserd<'static>, ()> {
    match real_of(input) {
        Some(i) => (real::TABLE[i].1)(d),
        None => Kserd::enc(&Ser(d)).map_err(drop),
    }
}

fn decode(input: &J, k: Kserd) -> J {
    let r = match real_of(input) {
        Some(i) => (real::TABLE[i].2)(k),
        None => Ty(&input["t"]).deserialize(Decoder(k)).map_err(drop),
    };
    match r {
        Ok(v) => json!({"r": "ok", "v": v}),
        Err(()) => json!({"r": "err"}),
    }
}

/// Tree of an encoded value with the exact values of its numbers.
pub fn exact_tree(k: &Kserd) -> J {
    let mut t = to_tree(k, true);
    annotate(k, &mut t);
    t
}

/// Adds exact numbers (q), character counts (cc, nc) and the text of byte arrays (u).
fn annotate(k: &Kserd, t: &mut J) {
    match &k.val {
        Value::Num(n) => t["q"] = exact::of_num(n),
        Value::Str(s) => t["cc"] = s.chars().count().into(),
        Value::Barr(b) => t["u"] = std::str::from_utf8(b.as_bytes()).ok().into_iter().map(J::from).collect(),
        Value::Tuple(v) | Value::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                annotate(x, &mut t["c"][i]);
            }
        }
        Value::Cntr(f) => {
            t["nc"] = f.keys().map(|n| J::from(n.chars().count())).collect();
            for (i, x) in f.values().enumerate() {
                annotate(x, &mut t["c"][i]);
            }
        }
        Value::Map(m) => {
            for (i, (a, b)) in m.iter().enumerate() {
                annotate(a, &mut t["ks"][i]);
                annotate(b, &mut t["c"][i]);
            }
        }
        _ => (),
    }
}

pub fn exec(prop: &str, input: &J) -> J {
    match prop {
        "K14" => match encode(input, &input["d"]) {
            Err(()) => json!({"r": "enc"}),
            Ok(k) => {
                let brw = decode(input, k.mk_brw());
                let own = decode(input, k.mk_brw().into_owned());
                let again = decode(input, k);
                json!({"r": "ok", "own": own, "brw": brw, "now": again})
            }
        },
        "K15" => match encode(input, &input["d"]) {
            Err(()) => json!({"r": "enc"}),
            Ok(k) => {
                let s = k.as_str_with_config(layout::config(&input["cfg"]));
                match kserd::parse::parse(&s) {
                    Err(_) => json!({"r": "parse", "s": s}),
                    Ok(p) => {
                        let mut o = decode(input, p);
                        o["s"] = s.into();
                        o
                    }
                }
            }
        },
        "K17" => match encode(input, &input["d"]) {
            Err(()) => json!({"r": "err"}),
            Ok(k) => json!({"r": "ok", "v": exact_tree(&k)}),
        },
        _ => {
            let k = crate::tree::from_tree(&input["tree"]);
            if input["own"] == true {
                decode(input, k)
            } else {
                decode(input, k.mk_brw())
            }
        }
    }
}

// ---- random types and data -----------------------------------------------

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];

fn tj(k: &str, n: &str, f: Vec<J>, c: Vec<J>, vs: Vec<J>) -> J {
    json!({"k": k, "n": n, "f": f, "c": c, "vs": vs})
}

fn names(r: &mut Rng, n: usize) -> Vec<J> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = gen::name(r);
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v.into_iter().map(J::from).collect()
}

fn random_type(r: &mut Rng, depth: usize, borrowed: bool) -> J {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(if borrowed { 13 } else { 12 }) {
            0 => tj("bool", "", vec![], vec![], vec![]),
            1..=4 => tj("int", r.pick(INTS), vec![], vec![], vec![]),
            5 => tj("f32", "f32", vec![], vec![], vec![]),
            6 => tj("f64", "f64", vec![], vec![], vec![]),
            7 => tj("char", "", vec![], vec![], vec![]),
            8 | 9 => tj(if borrowed && r.flip() { "bstr" } else { "str" }, "", vec![], vec![], vec![]),
            10 => tj("bytes", "", vec![], vec![], vec![]),
            11 => tj("unit", "", vec![], vec![], vec![]),
            _ => tj("any", "", vec![], vec![], vec![]),
        };
    }
    let list = |r: &mut Rng, lo: usize, hi: usize| {
        let n = r.range(lo, hi);
        (0..n).map(|_| random_type(r, depth - 1, borrowed)).collect::<Vec<_>>()
    };
    match r.below(11) {
        0 => tj("opt", "", vec![], list(r, 1, 1), vec![]),
        1 | 2 => tj("seq", "", vec![], list(r, 1, 1), vec![]),
        3 => {
            let most = if r.chance(1, 12) { 9 } else { 3 };
            tj("tuple", "", vec![], list(r, 1, most), vec![])
        }
        4 => tj("map", "", vec![], list(r, 2, 2), vec![]),
        5 => tj("ustruct", &gen::name(r), vec![], vec![], vec![]),
        6 => tj("nstruct", &gen::name(r), vec![], list(r, 1, 1), vec![]),
        7 => {
            let mut c = list(r, 0, 3);
            if c.len() == 1 {
                c.push(random_type(r, 0, borrowed));
            }
            tj("tstruct", &gen::name(r), vec![], c, vec![])
        }
        8 | 9 => {
            let most = if r.chance(1, 12) { 10 } else { 4 };
            let c = list(r, 0, most);
            tj("struct", &gen::name(r), names(r, c.len()), c, vec![])
        }
        _ => {
            let n = if r.chance(1, 10) { r.range(5, 9) } else { r.range(1, 4) };
            let vs = (names(r, n).into_iter())
                .map(|name| {
                    let name = name.as_str().unwrap().to_string();
                    match r.below(4) {
                        0 => tj("uvar", &name, vec![], vec![], vec![]),
                        1 => tj("nvar", &name, vec![], list(r, 1, 1), vec![]),
                        2 => {
                            let c = if r.chance(1, 6) { vec![] } else { list(r, 2, 3) };
                            tj("tvar", &name, vec![], c, vec![])
                        }
                        _ => {
                            let c = list(r, 0, 3);
                            tj("svar", &name, names(r, c.len()), c, vec![])
                        }
                    }
                })
                .collect();
            tj("enum", &gen::name(r), vec![], vec![], vs)
        }
    }
}

fn random_int(r: &mut Rng, ty: &str) -> J {
    let bits: u32 = ty[1..].parse().unwrap();
    let raw = match r.below(8) {
        0 => r.below(10) as u128,
        1 => u128::MAX,
        2 => 1u128 << (bits - 1),
        3 => (1u128 << (bits - 1)) - 1,
        // about a power of two, positive or negative
        4 | 5 => {
            let p = (1u128 << r.below(bits as usize)).wrapping_add(r.below(3) as u128).wrapping_sub(1);
            if r.flip() { p } else { p.wrapping_neg() }
        }
        // any magnitude
        6 => {
            let x = r.u128() >> r.below(bits as usize);
            if r.flip() { x } else { x.wrapping_neg() }
        }
        _ => r.u128(),
    };
    // round in binary
    let raw = if r.chance(1, 6) { raw & (u128::MAX << r.below(bits as usize)) } else { raw };
    if ty.starts_with('u') {
        int(ty, exact::of_u128(raw & (u128::MAX >> (128 - bits))))
    } else {
        int(ty, exact::of_i128(((raw << (128 - bits)) as i128) >> (128 - bits)))
    }
}

pub fn random_char(r: &mut Rng) -> char {
    match r.below(4) {
        0 => *r.pick(&['a', 'Z', '"', '\'', '\n', ' ', ':', '=', '\u{0}', '(', '#', 'é', '✓']),
        1 => char::from_u32(r.below(0xd800) as u32).unwrap(),
        2 if r.chance(1, 4) => '😀',
        _ => (b' ' + r.below(95) as u8) as char,
    }
}

/// What identity-blind comparison sees of a piece of data.
fn content(d: &J) -> J {
    let k = match st(d, "k") {
        "none" | "some" | "tuple" | "ustruct" | "nstruct" | "tstruct" | "uvar" | "nvar" | "tvar" => "tuple",
        "struct" | "svar" if arr(d, "c").is_empty() => "tuple",
        "struct" | "svar" => "struct",
        "int" | "f32" | "f64" => "num",
        "char" | "str" | "bstr" => "str",
        k => k,
    };
    let q = if d["k"] == "f32" { &d["r"] } else { &d["q"] };
    let mut c: Vec<J> = arr(d, "c").iter().map(content).collect();
    let mut ks: Vec<J> = arr(d, "ks").iter().map(content).collect();
    let mut f = arr(d, "f").clone();
    if k == "map" {
        let mut e: Vec<(J, J)> = ks.into_iter().zip(c).collect();
        e.sort_by_key(|x| x.0.to_string());
        (ks, c) = e.into_iter().unzip();
    }
    if k == "struct" {
        let mut e: Vec<(J, J)> = f.into_iter().zip(c).collect();
        e.sort_by_key(|x| x.0.to_string());
        (f, c) = e.into_iter().unzip();
    }
    json!([k, d["p"], q, f, ks, c])
}

/// The length of a list or map: small, now and then large.
fn many(r: &mut Rng) -> usize {
    if r.chance(1, 16) {
        r.below(20)
    } else {
        r.below(4)
    }
}

fn random_data(r: &mut Rng, t: &J, budget: &mut usize) -> J {
    *budget = budget.saturating_sub(1);
    let c = arr(t, "c");
    let name = st(t, "n");
    let all = |r: &mut Rng, c: &[J], b: &mut usize| c.iter().map(|t| random_data(r, t, b)).collect::<Vec<_>>();
    match st(t, "k") {
        "bool" => plain("bool", "", if r.flip() { "true" } else { "false" }),
        "int" => random_int(r, name),
        "f32" => f32_data(match r.below(4) {
            0 => f32::from_bits(r.next() as u32),
            1 => r.below(1000) as f32 / 10.0,
            2 => gen::float(r) as f32,
            _ => *r.pick(&[f32::MAX, f32::MIN_POSITIVE, f32::NAN, 0.1, -0.0, f32::from_bits(1), 16777216.0]),
        }),
        "f64" => f64_data(gen::float(r)),
        "char" => plain("char", "", &random_char(r).to_string()),
        "str" => plain("str", "", &gen::string(r)),
        "bstr" => plain("bstr", "", &gen::string(r)),
        "bytes" => plain("bytes", "", &hex(&gen::bytes(r))),
        "unit" => plain("unit", "", ""),
        "any" => {
            let t = random_type(r, 2, false);
            random_data(r, &t, budget)
        }
        "opt" if r.chance(1, 3) => plain("none", "", ""),
        "opt" => group("some", "", all(r, c, budget)),
        "seq" => {
            let n = if *budget == 0 { 0 } else { many(r) };
            group("seq", "", (0..n).map(|_| random_data(r, &c[0], budget)).collect())
        }
        "tuple" => group("tuple", "", all(r, c, budget)),
        "map" => {
            let n = if *budget == 0 { 0 } else { many(r) };
            let (mut ks, mut vs, mut seen) = (vec![], vec![], vec![]);
            for _ in 0..n {
                let k = random_data(r, &c[0], budget);
                let what = content(&k);
                // keys that differ by their identities only are one key to the format
                if !seen.contains(&what) {
                    seen.push(what);
                    ks.push(k);
                    vs.push(random_data(r, &c[1], budget));
                }
            }
            map(ks, vs)
        }
        "ustruct" => plain("ustruct", name, ""),
        "nstruct" => group("nstruct", name, all(r, c, budget)),
        "tstruct" => group("tstruct", name, all(r, c, budget)),
        "struct" => fields("struct", name, arr(t, "f").clone(), all(r, c, budget)),
        "enum" => {
            let v = r.pick(arr(t, "vs"));
            let c = all(r, arr(v, "c"), budget);
            data(st(v, "k"), st(v, "n"), "", exact::of_u128(0), exact::of_u128(0), arr(v, "f").clone(), vec![], c)
        }
        k => panic!("harness: type kind {}", k),
    }
}

/// A type (and the index of the derived type it describes, or -1) and data of it.
fn typed(r: &mut Rng, borrowed: bool) -> (J, i64, J) {
    let (t, real) = if r.chance(1, 3) {
        let i = r.below(real::TABLE.len());
        ((real::TABLE[i].0)(), i as i64)
    } else {
        let d = r.range(1, 4);
        (random_type(r, d, borrowed), -1)
    };
    let mut budget = 40;
    let d = random_data(r, &t, &mut budget);
    (t, real, d)
}

fn spoil_name(r: &mut Rng, d: &mut J) {
    // some name of the data becomes doubtful
    let k = st(d, "k").to_string();
    if r.chance(1, 3) && k.len() > 3 && (k.ends_with("struct") || k.ends_with("var")) {
        d["n"] = (*r.pick(&[
            "a b", "", "a.b", "x/y", "a=b", "é", "a\\b", "<T>", "a,b", "(", "a\"b", "9", "x\ty", "a-b", "[x]", "{", "}", ":", "a:b",
        ]))
        .into();
        return;
    }
    let n = arr(d, "c").len();
    if n > 0 {
        let i = r.below(n);
        spoil_name(r, &mut d["c"][i]);
    }
}

/// A tree that differs from an encoded one in some places.
fn distort(r: &mut Rng, k: &Kserd<'static>) -> Kserd<'static> {
    let mut out = k.clone();
    match r.below(6) {
        0 if r.flip() => {
            out.id = match r.below(4) {
                0 => None,
                1 => Some((*r.pick(&["None", "None", "none", "NONE", "Non", "Nonex"])).into()),
                2 => Some((*r.pick(&["Some", "Some", "some", "SOME", "So"])).into()),
                _ => Some(gen::name(r).into()),
            };
            return out;
        }
        1 if r.chance(1, 3) => {
            out.val = match r.below(5) {
                0 => Value::Tuple(vec![out.clone()]),
                1 => Value::Seq(vec![out.clone()]),
                2 => Value::Unit,
                3 => Value::Tuple(vec![]),
                _ => gen::prim(r, false),
            };
            if r.flip() {
                out.id = None;
            }
            return out;
        }
        _ => (),
    }
    out.val = match out.val {
        Value::Num(n) => Value::Num(match r.below(6) {
            0 => gen::number(r),
            1 => Number::Float(n.as_f64() + *r.pick(&[0.5, 1e-11, 1e-10, 2e-10, 1.0])),
            2 => Number::Int(n.as_i128().unwrap_or(0).wrapping_neg()),
            3 => Number::Float(n.as_f64()),
            4 => Number::Uint(n.as_u128().unwrap_or(7).wrapping_mul(256)),
            _ => Number::Uint(*r.pick(&[255, 256, 65535, 65536, 4294967295, 4294967296, u64::MAX as u128, u64::MAX as u128 + 1])),
        }),
        Value::Str(s) => match r.below(5) {
            // two characters, or one that is spelled with several
            4 => Value::Str(r.pick(&["\\n", "\\\\", "\\t", "\\0", "''", "'a'", "\"\"", "e\u{301}", "\r\n", " a", "a ", "\u{feff}a", "\u{1f1e9}\u{1f1ea}", "\\u{61}", "a\0"]).to_string().into()),
            0 => Value::Str(format!("{}{}", s, random_char(r)).into()),
            1 => Value::Barr(s.as_bytes().to_vec().into()),
            2 => Value::Str("".to_string().into()),
            _ => Value::Str(random_char(r).to_string().into()),
        },
        Value::Barr(b) => match r.below(3) {
            0 => Value::Str(String::from_utf8_lossy(b.as_bytes()).to_string().into()),
            1 => Value::Seq(b.as_bytes().iter().map(|x| Kserd::new_num(*x)).collect()),
            _ => Value::Barr(b"text".to_vec().into()),
        },
        Value::Tuple(mut v) | Value::Seq(mut v) if r.chance(1, 3) || v.is_empty() => match r.below(6) {
            0 if !v.is_empty() => {
                v.pop();
                Value::Tuple(v)
            }
            1 => {
                v.push(Kserd::new_num(1u8));
                Value::Tuple(v)
            }
            2 => Value::Seq(v),
            3 => Value::Tuple(v),
            4 if v.is_empty() => Value::Unit,
            _ => Value::Cntr(v.into_iter().enumerate().map(|(i, x)| (format!("f{}", i).into(), x)).collect()),
        },
        Value::Tuple(mut v) => {
            let i = r.below(v.len());
            v[i] = distort(r, &v[i]);
            Value::Tuple(v)
        }
        Value::Seq(mut v) => {
            let i = r.below(v.len());
            v[i] = distort(r, &v[i]);
            Value::Seq(v)
        }
        Value::Cntr(mut f) if !f.is_empty() => {
            let i = r.below(f.len());
            let n = f.keys().nth(i).unwrap().clone();
            match r.below(8) {
                0 => drop(f.remove(&n)),
                1 => drop(f.insert(gen::name(r).into(), Kserd { id: None, val: gen::prim(r, false) })),
                2 => {
                    let v = f.remove(&n).unwrap();
                    f.insert(gen::name(r).into(), v);
                }
                // the same entries keyed by values: names, positions or bytes
                3 => {
                    return Kserd {
                        id: out.id,
                        val: Value::Map(
                            (f.into_iter().enumerate())
                                .map(|(i, (n, v))| {
                                    let k = match r.below(8) {
                                        0 => Value::Num(Number::Uint(i as u128)),
                                        1 => Value::Barr(n.as_bytes().to_vec().into()),
                                        2 if r.flip() => Value::Num(Number::Int(i as i128)),
                                        _ => Value::Str(n.as_str().to_string().into()),
                                    };
                                    (Kserd { id: None, val: k }, v)
                                })
                                .collect(),
                        ),
                    }
                }
                4 if r.flip() => return Kserd { id: out.id, val: Value::Seq(f.into_iter().map(|x| x.1).collect()) },
                _ => {
                    let v = f.remove(&n).unwrap();
                    f.insert(n, distort(r, &v));
                }
            }
            Value::Cntr(f)
        }
        Value::Map(mut m) if !m.is_empty() => {
            let i = r.below(m.len());
            let k = m.keys().nth(i).unwrap().clone();
            let v = m.remove(&k).unwrap();
            if r.flip() {
                m.insert(distort(r, &k), v);
            } else {
                m.insert(k, distort(r, &v));
            }
            Value::Map(m)
        }
        Value::Cntr(_) => Value::Tuple(vec![]),
        Value::Map(_) => Value::Cntr(Default::default()),
        Value::Bool(_) => Value::Num(Number::Uint(1)),
        Value::Unit => Value::Tuple(vec![]),
    };
    out
}

pub fn gen(prop: &str, r: &mut Rng) -> J {
    match prop {
        "K14" => {
            let (t, real, d) = typed(r, false);
            json!({"d": d, "t": t, "real": real})
        }
        "K15" => {
            let (t, real, d) = typed(r, false);
            let mut cfg = gen::config(r);
            cfg["it"] = true.into();
            cfg["ic"] = true.into();
            json!({"d": d, "t": t, "real": real, "cfg": cfg})
        }
        "K17" => {
            let (_, real, mut d) = typed(r, true);
            if real < 0 && r.chance(1, 4) {
                spoil_name(r, &mut d);
            }
            json!({"d": d, "real": real})
        }
        _ => {
            let (t, real, d) = typed(r, true);
            let mut k = match r.below(8) {
                0 => gen::tree(r, 8),
                _ => Kserd::enc(&Ser(&d)).unwrap_or_else(|_| Kserd::new_unit()),
            };
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
                k = distort(r, &k);
            }
            json!({"tree": exact_tree(&k), "t": t, "real": real, "own": r.flip()})
        }
    }
}

/// Some part of a piece of data becomes something else.
fn change(d: &mut J) -> bool {
    match st(d, "k") {
        "int" | "f64" => {
            let one = exact::of_u128(1);
            d["q"] = if d["q"] == one { exact::of_u128(2) } else { one };
            true
        }
        "bool" => {
            d["p"] = if d["p"] == "true" { "false" } else { "true" }.into();
            true
        }
        "str" | "bstr" | "char" => {
            d["p"] = format!("{}x", st(d, "p")).into();
            true
        }
        _ => (0..arr(d, "c").len()).any(|i| change(&mut d["c"][i])),
    }
}

pub fn corrupt(prop: &str, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    match prop {
        "K14" => {
            if !change(o.get_mut("own")?.get_mut("v")?) {
                return None;
            }
        }
        "K17" if o["r"] == "ok" => {
            let id = if o["v"]["id"] == json!(["q"]) { json!([]) } else { json!(["q"]) };
            o["v"]["id"] = id;
        }
        "K17" => return None,
        _ if o["r"] == "ok" => {
            if !change(o.get_mut("v")?) {
                return None;
            }
        }
        "K16" => o = json!({"r": "ok", "v": plain("unit", "", "")}),
        _ => return None,
    }
    Some(o)
}
