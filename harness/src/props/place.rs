//! K28: where the text and the bytes of a value are held, and by whom.

use super::layout;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, st, to_tree, unhex};
use kserd::encode::Decoder;
use kserd::fmt::FormattingConfig;
use kserd::{Barr, Kserd, Kstr, Number, ToKserd, Value};
use serde::de::{DeserializeSeed, Deserializer, Error, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple};
use serde::{Serialize, Serializer};
use serde_json::{json, Value as J};
use std::any::Any;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::fmt;
use std::rc::Rc;
use std::sync::Mutex;

/// Memory stays where it is until the end of a run.
#[derive(Default)]
struct Memory {
    cells: HashMap<(usize, usize), i64>,
    count: i64,
    kept: Vec<Box<dyn Any>>,
}

impl Memory {
    fn cell(&mut self, ptr: *const u8, len: usize) -> i64 {
        let count = &mut self.count;
        match len {
            0 => 0,
            _ => *self.cells.entry((ptr as usize, len)).or_insert_with(|| {
                *count += 1;
                *count
            }),
        }
    }

    /// A decoder drops the identities of a value.
    fn forget_ids(&mut self, k: &Kserd<'static>) {
        for x in gen::parts(k) {
            if let Some(Kstr { inner: Cow::Owned(s) }) = &x.id {
                self.cells.remove(&(s.as_ptr() as usize, s.len()));
            }
        }
    }

    fn keep<T: 'static>(&mut self, x: T) -> &'static T {
        let b = Box::new(x);
        let p: *const T = &*b;
        self.kept.push(b);
        // the box lives as long as the memory, which outlives every value of the run
        unsafe { &*p }
    }

    /// An owned text may be moved or copied; what was copied is no longer there.
    fn owned(&mut self, k: Kserd<'static>, f: impl FnOnce(Kserd<'static>) -> Kserd<'static>) -> Kserd<'static> {
        let before = places(&k, true);
        let cells: Vec<_> = before.iter().map(|p| self.cell(p.ptr, p.len)).collect();
        for p in before.iter().filter(|p| p.own) {
            self.cells.remove(&(p.ptr as usize, p.len));
        }
        let k = f(k);
        for ((p, q), cell) in before.iter().zip(places(&k, true)).zip(cells) {
            if p.own && (p.ptr, p.len) == (q.ptr, q.len) && cell > 0 {
                self.cells.insert((p.ptr as usize, p.len), cell);
            }
        }
        k
    }

    fn seen(&mut self, k: &Kserd, all: bool) -> J {
        places(k, all).iter().map(|p| json!([p.own as i64, self.cell(p.ptr, p.len)])).collect()
    }
}

struct Place {
    own: bool,
    ptr: *const u8,
    len: usize,
}

impl From<&Kstr<'_>> for Place {
    fn from(s: &Kstr) -> Place {
        Place { own: matches!(s.inner, Cow::Owned(_)), ptr: s.as_ptr(), len: s.len() }
    }
}

impl From<&Barr<'_>> for Place {
    fn from(b: &Barr) -> Place {
        Place { own: matches!(b.inner, Cow::Owned(_)), ptr: b.as_ptr(), len: b.len() }
    }
}

/// Every text and byte array of a value: identity, content, field names before their values.
fn places(k: &Kserd, all: bool) -> Vec<Place> {
    let mut out: Vec<Place> = vec![];
    if let (Some(id), true) = (&k.id, all) {
        out.push(id.into());
    }
    match &k.val {
        Value::Str(s) => out.push(s.into()),
        Value::Barr(b) => out.push(b.into()),
        Value::Tuple(v) | Value::Seq(v) => v.iter().for_each(|x| out.extend(places(x, all))),
        Value::Cntr(f) => {
            for (n, x) in f.iter() {
                if all {
                    out.push(n.into());
                }
                out.extend(places(x, all));
            }
        }
        Value::Map(m) => {
            for (a, b) in m.iter() {
                out.extend(places(a, all));
                out.extend(places(b, all));
            }
        }
        _ => (),
    }
    out
}

/// Builds a value whose texts are owned or borrowed as told.
struct Builder<'m> {
    m: &'m mut Memory,
    own: Vec<bool>,
    i: usize,
    how: usize,
}

impl<'m> Builder<'m> {
    fn flag(&mut self) -> bool {
        self.i += 1;
        self.own[self.i - 1]
    }

    fn text(&mut self, s: &str) -> Kstr<'static> {
        let s = s.to_string();
        self.m.cell(s.as_ptr(), s.len());
        let other = (self.how + self.i) % 2 == 0;
        if self.flag() {
            if other {
                Kstr::owned(s)
            } else {
                s.into()
            }
        } else {
            let s: &'static str = self.m.keep(s).as_str();
            if other {
                Kstr::brwed(s)
            } else {
                s.into()
            }
        }
    }

    fn string(&mut self, s: &str) -> Value<'static> {
        let s = s.to_string();
        self.m.cell(s.as_ptr(), s.len());
        let way = (self.how + self.i) % 4;
        if self.flag() {
            match way {
                0 => Value::Str(s.into()),
                1 => Value::new_string(s),
                2 => Kserd::new_string(s).val,
                _ => s.into_kserd().expect("harness: text").val,
            }
        } else {
            let s: &'static str = self.m.keep(s).as_str();
            match way {
                0 => Value::Str(s.into()),
                1 => Value::new_str(s),
                2 => Kserd::new_str(s).val,
                _ => s.into_kserd().expect("harness: text").val,
            }
        }
    }

    fn bytes(&mut self, b: Vec<u8>) -> Value<'static> {
        self.m.cell(b.as_ptr(), b.len());
        let way = (self.how + self.i) % 3;
        if self.flag() {
            match way {
                0 => Value::Barr(b.into()),
                1 => Value::new_barrv(b),
                _ => Kserd::new_barrv(b).val,
            }
        } else {
            let b: &'static [u8] = self.m.keep(b).as_slice();
            match way {
                0 => Value::Barr(b.into()),
                1 => Value::new_barr(b),
                _ => Kserd::new_barr(b).val,
            }
        }
    }

    fn build(&mut self, t: &J) -> Kserd<'static> {
        let id = arr(t, "id").first().map(|s| self.text(s.as_str().expect("harness: identity")));
        let val = match st(t, "k") {
            "str" => self.string(st(t, "p")),
            "barr" => self.bytes(unhex(st(t, "p"))),
            "tuple" => Value::Tuple(arr(t, "c").iter().map(|x| self.build(x)).collect()),
            "seq" => Value::Seq(arr(t, "c").iter().map(|x| self.build(x)).collect()),
            "cntr" => {
                let mut f = vec![];
                for (n, x) in arr(t, "nm").iter().zip(arr(t, "c")) {
                    let n = self.text(n.as_str().expect("harness: name"));
                    f.push((n, self.build(x)));
                }
                if self.how % 2 == 0 {
                    Value::new_cntr(f).expect("harness: names")
                } else {
                    Kserd::new_cntr(f).expect("harness: names").val
                }
            }
            "map" => {
                let mut m = vec![];
                for (a, x) in arr(t, "ks").iter().zip(arr(t, "c")) {
                    let a = self.build(a);
                    m.push((a, self.build(x)));
                }
                if self.how % 2 == 0 {
                    Value::new_map(m)
                } else {
                    Kserd::new_map(m).val
                }
            }
            _ => from_tree(t).val,
        };
        match id {
            Some(id) => Kserd::with_id(id, val).expect("harness: identity"),
            None => Kserd::new(val),
        }
    }
}

/// Takes whatever a decoder hands out and keeps it.
#[derive(Clone)]
struct Probe {
    hint: usize,
    seen: Rc<RefCell<Vec<(i64, *const u8, usize)>>>,
    kept: Rc<RefCell<Vec<Box<dyn Any>>>>,
}

impl Probe {
    fn saw(&self, own: i64, b: &[u8]) {
        self.seen.borrow_mut().push((own, b.as_ptr(), b.len()));
    }
}

impl<'de> DeserializeSeed<'de> for Probe {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.hint {
            0 => d.deserialize_any(self),
            1 => d.deserialize_str(self),
            2 => d.deserialize_string(self),
            3 => d.deserialize_bytes(self),
            4 => d.deserialize_byte_buf(self),
            5 => d.deserialize_option(self),
            6 => d.deserialize_seq(self),
            7 => d.deserialize_tuple(2, self),
            8 => d.deserialize_map(self),
            9 => d.deserialize_struct("S", &["a"], self),
            10 => d.deserialize_identifier(self),
            11 => d.deserialize_ignored_any(self),
            12 => d.deserialize_newtype_struct("N", self),
            13 => d.deserialize_tuple_struct("T", 2, self),
            14 => d.deserialize_bool(self),
            _ => d.deserialize_unit(self),
        }
    }
}

impl<'de> Visitor<'de> for Probe {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: Error>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_i64<E: Error>(self, _: i64) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E: Error>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_i128<E: Error>(self, _: i128) -> Result<(), E> {
        Ok(())
    }
    fn visit_u128<E: Error>(self, _: u128) -> Result<(), E> {
        Ok(())
    }
    fn visit_f64<E: Error>(self, _: f64) -> Result<(), E> {
        Ok(())
    }
    fn visit_unit<E: Error>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_none<E: Error>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<(), E> {
        self.saw(2, s.as_bytes());
        Ok(())
    }
    fn visit_borrowed_str<E: Error>(self, s: &'de str) -> Result<(), E> {
        self.saw(0, s.as_bytes());
        Ok(())
    }
    fn visit_string<E: Error>(self, s: String) -> Result<(), E> {
        self.saw(1, s.as_bytes());
        self.kept.borrow_mut().push(Box::new(s));
        Ok(())
    }
    fn visit_bytes<E: Error>(self, b: &[u8]) -> Result<(), E> {
        self.saw(2, b);
        Ok(())
    }
    fn visit_borrowed_bytes<E: Error>(self, b: &'de [u8]) -> Result<(), E> {
        self.saw(0, b);
        Ok(())
    }
    fn visit_byte_buf<E: Error>(self, b: Vec<u8>) -> Result<(), E> {
        self.saw(1, &b);
        self.kept.borrow_mut().push(Box::new(b));
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_element_seed(self.clone())?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_key_seed(self.clone())?.is_some() {
            a.next_value_seed(self.clone())?;
        }
        Ok(())
    }
}

/// Serde wants names that last; each is kept once.
fn lasting(s: &str) -> &'static str {
    static NAMES: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut names = NAMES.lock().expect("harness: names");
    if let Some(x) = names.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    names.insert(x);
    x
}

/// A value as a serializable type.
struct Ser<'a>(&'a Kserd<'static>);

impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match &self.0.val {
            Value::Unit => s.serialize_unit(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Num(Number::Uint(n)) => s.serialize_u128(*n),
            Value::Num(Number::Int(n)) => s.serialize_i128(*n),
            Value::Num(Number::Float(n)) => s.serialize_f64(*n),
            Value::Str(x) => s.serialize_str(x.as_str()),
            Value::Barr(x) => s.serialize_bytes(x.as_bytes()),
            Value::Tuple(v) => {
                let mut t = s.serialize_tuple(v.len())?;
                for x in v {
                    t.serialize_element(&Ser(x))?;
                }
                t.end()
            }
            Value::Seq(v) => {
                let mut t = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    t.serialize_element(&Ser(x))?;
                }
                t.end()
            }
            Value::Cntr(f) => {
                let mut t = s.serialize_struct("C", f.len())?;
                for (n, x) in f.iter() {
                    t.serialize_field(lasting(n.as_str()), &Ser(x))?;
                }
                t.end()
            }
            Value::Map(m) => {
                let mut t = s.serialize_map(Some(m.len()))?;
                for (a, b) in m.iter() {
                    t.serialize_entry(&Ser(a), &Ser(b))?;
                }
                t.end()
            }
        }
    }
}

enum Slot {
    Live(Kserd<'static>),
    Lent(&'static Kserd<'static>),
    Gone,
}

impl Slot {
    fn view(&self) -> Option<&Kserd<'static>> {
        match self {
            Slot::Live(k) => Some(k),
            Slot::Lent(k) => Some(k),
            Slot::Gone => None,
        }
    }

    fn take(&mut self) -> Option<Kserd<'static>> {
        match std::mem::replace(self, Slot::Gone) {
            Slot::Live(k) => Some(k),
            other => {
                *self = other;
                None
            }
        }
    }
}

fn config(w: usize) -> FormattingConfig {
    layout::config(&json!({"ip": true, "it": true, "ic": true, "is": true, "im": true, "w": w}))
}

/// One step: the new value if there is one, and what was seen.
fn step(m: &mut Memory, slots: &mut Vec<Slot>, op: &J) -> J {
    let at = |f: &str| op[f].as_u64().expect("harness: slot") as usize;
    let (a, b, w) = (at("a") - 1, at("b") - 1, at("w"));
    if a >= slots.len() || b >= slots.len() {
        return json!([[9, 9]]);
    }
    let free = |s: &Slot| matches!(s, Slot::Live(_));
    let made = match st(op, "o") {
        "clone" => slots[a].view().map(|k| k.clone()),
        "own" => slots[a].take().map(|k| {
            m.owned(k, |k| {
                if w % 2 == 0 {
                    k.into_owned()
                } else {
                    Kserd { id: k.id.map(|x| x.into_owned()), val: k.val.into_owned() }
                }
            })
        }),
        "brw" => {
            if let Some(k) = slots[a].take() {
                slots[a] = Slot::Lent(m.keep(k));
            }
            match &slots[a] {
                Slot::Lent(k) => {
                    let k: &'static Kserd<'static> = k;
                    Some(if w % 2 == 0 {
                        k.mk_brw()
                    } else {
                        Kserd { id: k.id.as_ref().map(|x| Kstr::brwed(x.as_str())), val: k.val.mk_brw() }
                    })
                }
                _ => None,
            }
        }
        "same" => slots[a].take().map(|k| {
            (match w % 3 {
                0 => Some(k).into_kserd(),
                1 => Box::new(k).into_kserd(),
                _ => k.into_kserd(),
            })
            .expect("harness: the value itself")
        }),
        "join" => {
            if a != b && free(&slots[a]) && free(&slots[b]) {
                let (x, y) = (slots[a].take().expect("harness"), slots[b].take().expect("harness"));
                let k = if w % 2 == 0 { vec![x, y].into_kserd() } else { (x, y).into_kserd() };
                // the name of the list itself is not part of what was joined
                k.ok().map(|k| Kserd::new(k.val))
            } else {
                None
            }
        }
        "parse" => match slots[a].view() {
            Some(k) => {
                let s: &'static str = m.keep(k.as_str_with_config(config(w))).as_str();
                match kserd::parse::parse(s) {
                    Ok(k) => Some(k),
                    Err(_) => return json!([[8, 8]]),
                }
            }
            None => None,
        },
        "enc" => {
            return match slots[a].view() {
                Some(k) => match Kserd::enc(&Ser(k)) {
                    Ok(k) => {
                        let k = m.keep(k);
                        m.seen(k, false)
                    }
                    Err(_) => json!([[8, 8]]),
                },
                None => json!([[9, 9]]),
            }
        }
        "dec" => {
            return match slots[a].take() {
                Some(k) => {
                    m.forget_ids(&k);
                    let p = Probe { hint: w % 16, seen: Default::default(), kept: Default::default() };
                    let ok = p.clone().deserialize(Decoder(k)).is_ok();
                    m.kept.append(&mut p.kept.borrow_mut());
                    if !ok {
                        return json!([[8, 8]]);
                    }
                    let seen = p.seen.borrow();
                    seen.iter()
                        .map(|(own, ptr, len)| json!([own, if *own == 2 { 0 } else { m.cell(*ptr, *len) }]))
                        .collect()
                }
                None => json!([[9, 9]]),
            }
        }
        _ => panic!("harness: operation"),
    };
    match made {
        Some(k) => {
            let out = m.seen(&k, true);
            slots.push(Slot::Live(k));
            out
        }
        None => json!([[9, 9]]),
    }
}

pub fn exec(input: &J) -> J {
    let mut m = Memory::default();
    let own = arr(input, "own").iter().map(|x| x == true).collect();
    let how = input["how"].as_u64().expect("harness: how") as usize;
    let k = Builder { m: &mut m, own, i: 0, how }.build(&input["tree"]);
    let init = m.seen(&k, true);
    let mut slots = vec![Slot::Live(k)];
    let steps: Vec<J> = arr(input, "ops").iter().map(|op| step(&mut m, &mut slots, op)).collect();
    let end: Vec<J> = slots.iter().map(|s| s.view().map_or(json!([[9, 9]]), |k| m.seen(k, true))).collect();
    drop(slots);
    json!({"r": "ok", "init": init, "steps": steps, "end": end})
}

/// Reading turns a unit into an empty tuple, which is ordered differently as a key.
fn reordered(k: &Kserd<'static>) -> bool {
    let unit = |x: &&Kserd| x.val == Value::Unit || x.cntr().map_or(false, |c| c.is_empty());
    gen::parts(k).iter().any(|x| match &x.val {
        Value::Map(m) => m.keys().any(|a| gen::parts(a).iter().any(|y| unit(y))),
        _ => false,
    })
}

pub fn gen(r: &mut Rng) -> J {
    let max = *r.pick(&[2, 4, 9, 16]);
    let mut k = gen::tree(r, max);
    while reordered(&k) {
        k = gen::tree(r, max);
    }
    let n = places(&k, true).len();
    let mode = r.below(4);
    let own: Vec<bool> = (0..n).map(|_| mode == 0 || mode > 1 && r.flip()).collect();
    let mut slots = 1;
    let ops: Vec<J> = (0..r.range(1, 7))
        .map(|_| {
            let o = *r.pick(&["clone", "own", "brw", "brw", "same", "join", "parse", "enc", "dec"]);
            let (a, b) = (if r.flip() { slots } else { r.range(1, slots) }, r.range(1, slots));
            if !["enc", "dec"].contains(&o) {
                slots += 1;
            }
            let w = if o == "parse" { *r.pick(&[0, 10, 30, 80, 500]) } else { r.below(48) };
            json!({"o": o, "a": a, "b": b, "w": w})
        })
        .collect();
    json!({"tree": to_tree(&k, false), "own": own, "how": r.below(12), "ops": ops})
}

pub fn corrupt(obs: &J) -> Option<J> {
    let mut o = obs.clone();
    for part in ["end", "steps"].iter() {
        for s in o[part].as_array_mut()? {
            for x in s.as_array_mut()? {
                if x[1].as_i64()? > 0 && x[0] == 1 && part == &"end" {
                    x[1] = J::from(x[1].as_i64()? + 1);
                    return Some(o);
                }
                if x[0] == 0 || x[0] == 1 {
                    x[0] = J::from(1 - x[0].as_i64()?);
                    return Some(o);
                }
            }
        }
    }
    None
}
