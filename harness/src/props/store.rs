//! K21, K22: sessions over a store of values: copies, edits at a place, reads of a place.

use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, hex, st, to_tree};
use crate::{exact, tree};
use kserd::{Kserd, Kstr, Number, Value};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

type List<'k> = Vec<Kserd<'k>>;
type Fields<'k> = BTreeMap<Kstr<'k>, Kserd<'k>>;
type Map<'k> = BTreeMap<Kserd<'k>, Kserd<'k>>;

/// Tree with how and exactly which number is held (n, q) and the length of a text (u), where there is one.
pub fn show(k: &Kserd) -> J {
    let mut t = to_tree(k, false);
    dress(k, &mut t);
    t
}

fn dress(k: &Kserd, t: &mut J) {
    match &k.val {
        Value::Num(x) => {
            t["n"] = exact::held(x).into();
            t["q"] = exact::of_num(x);
        }
        Value::Str(s) => t["u"] = s.as_str().chars().count().into(),
        Value::Barr(_) => t["u"] = 0.into(),
        Value::Tuple(v) | Value::Seq(v) => v.iter().enumerate().for_each(|(i, x)| dress(x, &mut t["c"][i])),
        Value::Cntr(f) => f.values().enumerate().for_each(|(i, x)| dress(x, &mut t["c"][i])),
        Value::Map(m) => m.iter().enumerate().for_each(|(i, (a, b))| {
            dress(a, &mut t["ks"][i]);
            dress(b, &mut t["c"][i]);
        }),
        _ => (),
    }
}

/// Access through the public enum (`direct`) or through the accessors of the crate.
macro_rules! access {
    ($name:ident, $t:ty, $direct:pat => $x:expr, $by:ident) => {
        fn $name<'a, 'k>(k: &'a mut Kserd<'k>, direct: bool) -> Option<&'a mut $t> {
            if !direct {
                return k.$by();
            }
            match &mut k.val {
                $direct => Some($x),
                _ => None,
            }
        }
    };
}
access!(bool_of, bool, Value::Bool(b) => b, bool_mut);
access!(num_of, Number, Value::Num(n) => n, num_mut);
access!(str_of, String, Value::Str(s) => s.inner.to_mut(), str_mut);
access!(barr_of, Vec<u8>, Value::Barr(s) => s.inner.to_mut(), barr_mut);
access!(tuple_of, List<'k>, Value::Tuple(v) => v, tuple_mut);
access!(seq_of, List<'k>, Value::Seq(v) => v, seq_mut);
access!(list_of, List<'k>, Value::Tuple(v) | Value::Seq(v) => v, tuple_or_seq_mut);
access!(map_of, Map<'k>, Value::Map(m) => m, map_mut);

/// The accessor of a container keeps its reference to itself, so it works on a closure.
fn with_cntr<'k, T>(k: &mut Kserd<'k>, direct: bool, f: impl FnOnce(&mut Fields<'k>) -> T) -> Option<T> {
    if !direct {
        return k.cntr_mut().map(|mut a| f(&mut a));
    }
    match &mut k.val {
        Value::Cntr(x) => Some(f(x)),
        _ => None,
    }
}

/// Run `f` on the place a path leads to: an index, a field name or a key per step.
fn at<'k, T>(k: &mut Kserd<'k>, path: &[J], direct: bool, f: impl FnOnce(&mut Kserd<'k>) -> T) -> Option<T> {
    let (step, rest) = match path.split_first() {
        None => return Some(f(k)),
        Some(x) => x,
    };
    match st(step, "w") {
        "i" => at(list_of(k, direct)?.get_mut((step["i"].as_u64().unwrap() as usize).wrapping_sub(1))?, rest, direct, f),
        "n" => with_cntr(k, direct, |x| at(x.get_mut(st(step, "n"))?, rest, direct, f))?,
        _ => at(map_of(k, direct)?.get_mut(&from_tree(&step["k"][0]))?, rest, direct, f),
    }
}

fn list<'k>(v: &mut List<'k>, how: &str, x: impl FnOnce() -> Kserd<'k>) {
    match how {
        "push" => v.push(x()),
        "pop" => drop(v.pop()),
        "clear" => v.clear(),
        "front" => v.insert(0, x()),
        _ => v.reverse(),
    }
}

fn map<'k>(m: &mut Map<'k>, how: &str, key: Kserd<'k>, x: impl FnOnce() -> Kserd<'k>) {
    match how {
        "insert" => drop(m.insert(key, x())),
        "remove" => drop(m.remove(&key)),
        _ => m.clear(),
    }
}

fn fields<'k>(m: &mut Fields<'k>, how: &str, name: &str, x: impl FnOnce() -> Kserd<'k>) {
    match how {
        "insert" => drop(m.insert(name.to_string().into(), x())),
        "remove" => drop(m.remove(name)),
        _ => m.clear(),
    }
}

/// One edit; whether there was something of that kind to edit.
fn edit(k: &mut Kserd<'_>, op: &J, direct: bool) -> bool {
    let x = || from_tree(&op["v"][0]);
    let (how, name) = (st(op, "how"), st(op, "name"));
    let key = || from_tree(&op["key"][0]);
    let text = |s: &mut String| {
        if how == "set" {
            s.clear();
        }
        s.push_str(st(&op["v"][0], "p"));
    };
    let octets = |s: &mut Vec<u8>| {
        if how == "set" {
            s.clear();
        }
        s.extend(tree::unhex(st(&op["v"][0], "p")));
    };
    let truth = |b: &mut bool| *b = op["v"][0]["p"] == "true";
    let number = |n: &mut Number| {
        if let Value::Num(y) = x().val {
            *n = y;
        }
    };
    match st(op, "acc") {
        "bool" => bool_of(k, direct).map(truth).is_some(),
        "num" => num_of(k, direct).map(number).is_some(),
        "str" => str_of(k, direct).map(text).is_some(),
        "barr" => barr_of(k, direct).map(octets).is_some(),
        "tuple" => tuple_of(k, direct).map(|v| list(v, how, x)).is_some(),
        "seq" => seq_of(k, direct).map(|v| list(v, how, x)).is_some(),
        "list" => list_of(k, direct).map(|v| list(v, how, x)).is_some(),
        "cntr" => with_cntr(k, direct, |f| fields(f, how, name, x)).is_some(),
        "map" => map_of(k, direct).map(|m| map(m, how, key(), x)).is_some(),
        "id" => {
            k.id = op["v"][0]["id"].get(0).map(|s| s.as_str().unwrap().to_string().into());
            true
        }
        "val" => {
            k.val = x().val;
            true
        }
        "set" => {
            *k = x();
            true
        }
        // the same through a lookup by field name
        acc => match k.cntr_mut() {
            None => false,
            Some(mut a) => match acc {
                "get_bool" => a.get_bool_mut(name).map(truth).is_some(),
                "get_num" => a.get_num_mut(name).map(number).is_some(),
                "get_str" => a.get_str_mut(name).map(text).is_some(),
                "get_barr" => a.get_barr_mut(name).map(octets).is_some(),
                "get_tuple" => a.get_tuple_mut(name).map(|v| list(v, how, x)).is_some(),
                "get_seq" => a.get_seq_mut(name).map(|v| list(v, how, x)).is_some(),
                "get_list" => a.get_tuple_or_seq_mut(name).map(|v| list(v, how, x)).is_some(),
                "get_cntr" => a.get_cntr_mut(name).map(|mut f| fields(&mut f, how, st(&op["key"][0], "p"), x)).is_some(),
                "get_map" => a.get_map_mut(name).map(|m| map(m, how, key(), x)).is_some(),
                _ => panic!("harness: unknown edit {}", acc),
            },
        },
    }
}

fn opt<T>(x: Option<T>, f: impl FnOnce(T) -> J) -> J {
    x.map_or(json!([]), |y| json!([f(y)]))
}

fn trees<'a, 'k: 'a>(v: impl IntoIterator<Item = &'a Kserd<'k>>) -> J {
    v.into_iter().map(show).collect()
}

fn named(f: &Fields) -> J {
    json!({"nm": f.keys().map(|n| n.as_str()).collect::<Vec<_>>(), "c": trees(f.values())})
}

fn paired(m: &Map) -> J {
    json!({"ks": trees(m.keys()), "c": trees(m.values())})
}

/// What every accessor says about a value, and about the fields of the given names.
fn read(k: &mut Kserd, names: &[J]) -> J {
    let shared = json!({
        "unit": k.unit(), "bool": opt(k.bool(), |b| b.to_string().into()), "ch": opt(k.ch(), |c| c.to_string().into()),
        "uint": opt(k.uint(), exact::of_u128), "int": opt(k.int(), exact::of_i128), "float": opt(k.float(), exact::of_f64),
        "str": opt(k.str(), J::from), "barr": opt(k.barr(), |b| hex(b).into()),
        "tuple": opt(k.tuple(), trees), "seq": opt(k.seq(), trees), "list": opt(k.tuple_or_seq(), trees),
        "cntr": opt(k.cntr(), |a| named(&a)), "map": opt(k.map(), paired), "id": opt(k.id(), J::from),
    });
    let by: Vec<J> = (names.iter())
        .filter_map(|n| {
            let (n, a) = (n.as_str().unwrap(), k.cntr()?);
            let held = a.get_num(n).map(|x| json!({"n": exact::held(&x), "q": exact::of_num(&x)}));
            Some(json!({
                "get": opt(a.get(n), show), "unit": a.get_unit(n).is_some(), "bool": opt(a.get_bool(n), |b| b.to_string().into()),
                "num": opt(held, |x| x), "str": opt(a.get_str(n), J::from), "barr": opt(a.get_barr(n), |b| hex(b).into()),
                "tuple": opt(a.get_tuple(n), trees), "seq": opt(a.get_seq(n), trees), "list": opt(a.get_tuple_or_seq(n), trees),
                "cntr": opt(a.get_cntr(n), |f| named(&f)), "map": opt(a.get_map(n), paired),
            }))
        })
        .collect();
    let muts = json!({
        "bool": opt(k.bool_mut(), |b| b.to_string().into()),
        "num": opt(k.num_mut(), |x| json!({"n": exact::held(x), "q": exact::of_num(x)})),
        "str": opt(k.str_mut(), |s| s.as_str().into()), "barr": opt(k.barr_mut(), |b| hex(b).into()),
        "tuple": opt(k.tuple_mut(), |v| trees(v.iter())), "seq": opt(k.seq_mut(), |v| trees(v.iter())),
        "list": opt(k.tuple_or_seq_mut(), |v| trees(v.iter())),
        "cntr": opt(k.cntr_mut(), |a| named(&a)), "map": opt(k.map_mut(), |m| paired(m)),
    });
    let bym: Vec<J> = (names.iter())
        .filter_map(|n| {
            let (n, mut a) = (n.as_str().unwrap(), k.cntr_mut()?);
            Some(json!({
                "bool": opt(a.get_bool_mut(n), |b| b.to_string().into()),
                "num": opt(a.get_num_mut(n), |x| json!({"n": exact::held(x), "q": exact::of_num(x)})),
                "str": opt(a.get_str_mut(n), |s| s.as_str().into()), "barr": opt(a.get_barr_mut(n), |b| hex(b).into()),
                "tuple": opt(a.get_tuple_mut(n), |v| trees(v.iter())), "seq": opt(a.get_seq_mut(n), |v| trees(v.iter())),
                "list": opt(a.get_tuple_or_seq_mut(n), |v| trees(v.iter())),
                "cntr": opt(a.get_cntr_mut(n), |f| named(&f)), "map": opt(a.get_map_mut(n), |m| paired(m)),
            }))
        })
        .collect();
    json!({"at": shared, "by": by, "mut": muts, "bym": bym})
}

fn copy(k: &Kserd, how: &str) -> Kserd<'static> {
    let plain = |val| Kserd { id: None, val };
    match how {
        "clone" => k.clone().into_owned(),
        "view" => k.mk_brw().into_owned(),
        "cloneview" => k.mk_brw().clone().into_owned(),
        "viewview" => k.mk_brw().mk_brw().into_owned(),
        "vclone" => plain(k.val.clone().into_owned()),
        "vview" => plain(k.val.mk_brw().into_owned()),
        _ => panic!("harness: unknown copy {}", how),
    }
}

pub fn exec(prop: &str, input: &J) -> J {
    let direct = prop == "K21";
    // the store starts with a view of the base, so that borrowed text is edited as well
    let base = from_tree(&input["tree"]);
    let mut slots = vec![if input["brw"] == true { base.mk_brw() } else { base.clone() }];
    let mut steps = vec![];
    for op in arr(input, "ops") {
        let a = op["a"].as_u64().unwrap() as usize - 1;
        let path = arr(op, "at");
        let mut out = json!([]);
        let hit = match st(op, "o") {
            // a plain clone keeps what is borrowed borrowed
            "copy" if st(op, "how") == "clone" => {
                let c = at(&mut slots[a], path, true, |k| k.clone());
                let hit = c.is_some();
                slots.extend(c);
                hit
            }
            "copy" => {
                let c = at(&mut slots[a], path, true, |k| copy(k, st(op, "how")));
                let hit = c.is_some();
                slots.extend(c);
                hit
            }
            "own" => at(&mut slots[a], path, true, |k| {
                let x = std::mem::replace(k, Kserd::new_unit());
                *k = x.into_owned();
            })
            .is_some(),
            "look" => {
                let v = at(&mut slots[a], path, true, |k| json!([show(&k.mk_brw()), show(&k.clone())]));
                let hit = v.is_some();
                out = v.unwrap_or(out);
                hit
            }
            // an edit of a view shows in the view only; the view is kept as a new value
            "vedit" => {
                let mut v = slots[a].mk_brw();
                let hit = at(&mut v, path, direct, |k| edit(k, op, direct)) == Some(true);
                let v = v.into_owned();
                slots.push(v);
                hit
            }
            "edit" => at(&mut slots[a], path, direct, |k| edit(k, op, direct)) == Some(true),
            "read" => {
                let v = at(&mut slots[a], path, direct, |k| read(k, arr(op, "names")));
                let hit = v.is_some();
                out = v.map_or(out, |x| json!([x]));
                hit
            }
            o => panic!("harness: unknown operation {}", o),
        };
        steps.push(json!({"hit": hit, "out": out, "all": slots.iter().map(show).collect::<Vec<_>>()}));
    }
    drop(slots);
    json!({"r": "ok", "steps": steps, "base": show(&base)})
}

fn step(w: &str, i: usize, n: &str, k: Option<&Kserd>) -> J {
    json!({"w": w, "i": i, "n": n, "k": k.map_or(json!([]), |x| json!([show(x)]))})
}

/// A path into a value, sometimes one that leads nowhere.
fn path(r: &mut Rng, k: &Kserd) -> Vec<J> {
    let mut p = vec![];
    let mut k = k;
    while !r.chance(1, 3) {
        match &k.val {
            Value::Tuple(v) | Value::Seq(v) if !v.is_empty() => {
                let i = r.below(v.len());
                p.push(step("i", i + 1, "", None));
                k = &v[i];
            }
            Value::Cntr(f) if !f.is_empty() => {
                let (n, x) = f.iter().nth(r.below(f.len())).unwrap();
                p.push(step("n", 0, n, None));
                k = x;
            }
            Value::Map(m) if !m.is_empty() => {
                let (a, x) = m.iter().nth(r.below(m.len())).unwrap();
                p.push(step("k", 0, "", Some(a)));
                k = x;
            }
            _ => break,
        }
    }
    if r.chance(1, 25) {
        let n = *r.pick(gen::NAMES);
        p.push(match r.below(3) {
            0 => step("i", r.below(4), "", None),
            1 => step("n", 0, n, None),
            _ => step("k", 0, "", Some(&Kserd::new(Value::new_str(n)))),
        });
    }
    p
}

fn get<'a, 'k>(k: &'a Kserd<'k>, path: &[J]) -> Option<&'a Kserd<'k>> {
    path.iter().try_fold(k, |k, s| match &k.val {
        Value::Tuple(v) | Value::Seq(v) if s["w"] == "i" => v.get((s["i"].as_u64().unwrap() as usize).wrapping_sub(1)),
        Value::Cntr(f) if s["w"] == "n" => f.get(st(s, "n")),
        Value::Map(m) if s["w"] == "k" => m.get(&from_tree(&s["k"][0])),
        _ => None,
    })
}

fn small(r: &mut Rng) -> Kserd<'static> {
    gen::any_tree(r, 5)
}

/// An edit that mostly fits what is there.
fn some_edit(r: &mut Rng, k: Option<&Kserd>, op: &mut J, lookups: bool) {
    let kind = |k: &Kserd| match &k.val {
        Value::Unit => "unit",
        Value::Bool(_) => "bool",
        Value::Num(_) => "num",
        Value::Str(_) => "str",
        Value::Barr(_) => "barr",
        Value::Tuple(_) => "tuple",
        Value::Seq(_) => "seq",
        Value::Cntr(_) => "cntr",
        Value::Map(_) => "map",
    };
    const KINDS: &[&str] = &["bool", "num", "str", "barr", "tuple", "seq", "list", "cntr", "map"];
    let mut target = k;
    let mut name = gen::name(r);
    let mut by = false;
    if let (Some(Value::Cntr(f)), true) = (k.map(|x| &x.val), lookups) {
        by = r.chance(2, 3);
        if by {
            if let (false, true) = (f.is_empty(), r.chance(9, 10)) {
                name = f.keys().nth(r.below(f.len())).unwrap().to_string();
            }
            target = f.get(name.as_str());
        }
    }
    let mut acc = match target.map(kind) {
        Some("unit") | None => *r.pick(KINDS),
        Some(k) if r.chance(9, 10) => k,
        _ => *r.pick(KINDS),
    };
    if (acc == "tuple" || acc == "seq") && r.chance(1, 3) {
        acc = "list";
    }
    if !by && r.chance(1, 6) {
        acc = *r.pick(&["id", "val", "set"]);
    }
    let leaf = |val| Kserd { id: None, val };
    let v = match acc {
        "bool" => leaf(Value::Bool(r.flip())),
        "num" => leaf(Value::Num(gen::number(r))),
        "str" => leaf(Value::Str(gen::string(r).into())),
        "barr" => leaf(Value::Barr(gen::bytes(r).into())),
        _ => small(r),
    };
    let how = match acc {
        "str" | "barr" => *r.pick(&["set", "append"]),
        "tuple" | "seq" | "list" => *r.pick(&["push", "push", "pop", "front", "reverse", "clear"]),
        "cntr" | "map" => *r.pick(&["insert", "insert", "insert", "remove", "remove", "clear"]),
        _ => "set",
    };
    let mut key = gen::value(r, gen::Shape { ids: 4, wide: 2, depth: 1 }, 1, &mut 3, true);
    match target.map(|x| &x.val) {
        Some(Value::Map(m)) if !m.is_empty() && r.flip() => key = m.keys().nth(r.below(m.len())).unwrap().clone().into_owned(),
        Some(Value::Cntr(f)) if acc == "cntr" && !f.is_empty() && r.flip() => {
            let n = f.keys().nth(r.below(f.len())).unwrap().to_string();
            if by {
                key = leaf(Value::Str(n.into()));
            } else {
                name = n;
            }
        }
        _ => (),
    }
    // the field edited inside a container found by name is given as a text
    if by && acc == "cntr" && !matches!(key.val, Value::Str(_)) {
        key = leaf(Value::Str(gen::name(r).into()));
    }
    op["acc"] = if by { format!("get_{}", acc).into() } else { acc.into() };
    op["how"] = how.into();
    op["v"] = json!([show(&v)]);
    op["name"] = name.into();
    op["key"] = json!([show(&key)]);
}

pub fn gen(prop: &str, r: &mut Rng) -> J {
    let budget = *r.pick(&[3, 6, 10, 18]);
    let base = gen::any_tree(r, budget);
    let mut slots = vec![base.clone()];
    let mut ops = vec![];
    let longest = if r.chance(1, 5) { 12 } else { 5 };
    for _ in 0..r.range(1, longest) {
        let a = r.below(slots.len());
        let path = path(r, &slots[a]);
        let mut op = json!({"o": "", "a": a + 1, "at": path, "acc": "", "how": "", "v": [], "name": "", "key": [], "names": []});
        let room = slots.len() < 6;
        let o = match (prop, r.below(12)) {
            ("K21", 0..=4) if room => "copy",
            ("K21", 5) => "own",
            ("K21", 6) => "look",
            ("K21", 7) if room => "vedit",
            ("K21", _) => "edit",
            (_, 0) if room => "copy",
            (_, 1) if room => "vedit",
            (_, 2..=6) => "read",
            _ => "edit",
        };
        op["o"] = o.into();
        match o {
            "copy" => {
                let how = *r.pick(&["clone", "view", "cloneview", "viewview", "vclone", "vview"]);
                op["how"] = how.into();
                let c = get(&slots[a], &path).map(|k| from_tree(&show(k)));
                slots.extend(c.map(|mut c| {
                    if how.starts_with("vc") || how == "vview" {
                        c.id = None;
                    }
                    c
                }));
            }
            "vedit" | "edit" => {
                some_edit(r, get(&slots[a], &path), &mut op, prop == "K22");
                let mut k = from_tree(&show(&slots[a]));
                at(&mut k, &path, true, |k| edit(k, &op, true));
                if gen::size(&k) > 60 {
                    continue;
                }
                if o == "edit" {
                    slots[a] = k;
                } else {
                    slots.push(k);
                }
            }
            "read" => {
                let mut names = vec![gen::name(r)];
                if let Some(Value::Cntr(f)) = get(&slots[a], &path).map(|x| &x.val) {
                    names.extend(f.keys().take(4).map(|x| x.to_string()));
                }
                op["names"] = names.into();
            }
            _ => (),
        }
        ops.push(op);
    }
    json!({"tree": show(&base), "brw": r.flip(), "ops": ops})
}

pub fn corrupt(prop: &str, input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    if prop == "K22" {
        let read = (0..arr(input, "ops").len()).find(|i| input["ops"][*i]["o"] == "read" && obs["steps"][*i]["hit"] == true);
        if let Some(i) = read {
            let at = &mut o["steps"][i]["out"][0]["at"];
            at["str"] = if at["str"] == json!([]) { json!([""]) } else { json!([]) };
            return Some(o);
        }
    }
    let last = o["steps"].as_array_mut()?.last_mut()?["all"].as_array_mut()?.last_mut()?;
    last["id"] = if last["id"] == json!([]) { json!(["Q"]) } else { json!([]) };
    Some(o)
}
