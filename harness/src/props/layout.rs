//! K01..K06: the formatter.

use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, from_tree, st, to_tree};
use kserd::fmt::{Fmt, FmtError, Formatter, FormattingConfig, Repr};
use kserd::Kserd;
use serde_json::{json, Value as J};

pub fn config(j: &J) -> FormattingConfig {
    let b = |f: &str| j[f].as_bool().expect("harness: flag");
    let w = j["w"].as_i64().expect("harness: width");
    FormattingConfig {
        id_on_primitives: b("ip"),
        id_on_tuples: b("it"),
        id_on_containers: b("ic"),
        id_on_seqs: b("is"),
        id_on_maps: b("im"),
        width_limit: if w < 0 { None } else { Some(w as u16) },
    }
}

fn line(r: &Repr) -> usize {
    match r {
        Repr::Inline => 0,
        Repr::Concise => 1,
        Repr::Verbose => 2,
    }
}

fn word(w: &str) -> &str {
    match w {
        "inline" => "0",
        "concise" => "1",
        "verbose" => "2",
        x => x,
    }
}

fn fmts(f: &[Fmt]) -> J {
    f.iter().map(|f| json!({"id": f.id, "line": line(&f.line)})).collect()
}

fn outcome(r: Result<(), FmtError>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(FmtError::IdxOutOfBounds) => "bounds".into(),
        Err(FmtError::ParentIsInline) => "pinline".into(),
        Err(FmtError::ParentIsConcise) => "pconcise".into(),
        Err(FmtError::SeqMapAtRoot) => "root".into(),
        Err(FmtError::RequestTooHigh(max, request)) => format!("high{}{}", word(max), word(request)),
    }
}

fn request(f: &mut Formatter, op: &J) -> Result<(), FmtError> {
    let i = op["i"].as_u64().unwrap() as usize;
    match st(op, "o") {
        "cfg" => {
            f.apply_config(config(&op["cfg"]));
            Ok(())
        }
        "id" => f.id(i, op["b"].as_bool().unwrap()),
        _ => match op["r"].as_u64().unwrap() {
            0 => f.inline(i),
            1 => f.concise(i),
            _ => f.verbose(i),
        },
    }
}

fn apply(f: &mut Formatter, op: &J) -> String {
    outcome(request(f, op))
}

/// The outcome of a request and what it says.
pub fn explain(f: &mut Formatter, op: &J) -> J {
    let r = request(f, op);
    let msg = r.as_ref().err().map_or(json!([]), |e| json!([e.to_string()]));
    json!({"res": outcome(r), "msg": msg})
}

pub fn parsed(s: &str) -> J {
    match kserd::parse::parse(s) {
        Ok(k) => json!({"r": "ok", "v": to_tree(&k, false)}),
        Err(_) => json!({"r": "err"}),
    }
}

pub fn exec(prop: &str, input: &J) -> J {
    let k: Kserd = from_tree(&input["tree"]);
    match prop {
        "K01" => {
            let s = k.as_str_with_config(config(&input["cfg"]));
            let mut o = parsed(&s);
            o["s"] = s.into();
            o
        }
        "K02" | "K03" => {
            let mut f = Formatter::new(&k);
            for op in arr(input, "ops") {
                apply(&mut f, op);
            }
            let s = f.write_string(String::new());
            let mut o = parsed(&s);
            o["s"] = s.into();
            o["fmts"] = fmts(f.fmts());
            o
        }
        "K04" => {
            let mut f = Formatter::new(&k);
            let text = match st(input, "how") {
                "ops" => {
                    for op in arr(input, "ops") {
                        apply(&mut f, op);
                    }
                    f.write_string(st(input, "pre").to_string())
                }
                "cfg" => {
                    let c = config(&input["ops"][0]["cfg"]);
                    f.apply_config(c);
                    k.as_str_with_config(c)
                }
                how => {
                    f.apply_config(FormattingConfig::default());
                    if how == "display" {
                        k.to_string()
                    } else {
                        k.as_str()
                    }
                }
            };
            json!({"r": "ok", "fmts": fmts(f.fmts()), "text": text})
        }
        "K05" => {
            let mut f = Formatter::new(&k);
            for op in arr(input, "ops") {
                apply(&mut f, op);
            }
            let before = fmts(f.fmts());
            f.apply_config(match input["def"].as_bool().expect("harness: def") {
                true => FormattingConfig::default(),
                false => config(&input["cfg"]),
            });
            json!({"r": "ok", "before": before, "fmts": fmts(f.fmts())})
        }
        "K06" => {
            let mut f = Formatter::new(&k);
            let init = fmts(f.fmts());
            let mut steps = vec![];
            let ops = arr(input, "ops");
            for op in ops {
                let res = apply(&mut f, op);
                steps.push(json!({"res": res, "fmts": fmts(f.fmts())}));
            }
            // every request of the fan is tried on its own after the common history
            let mut fan = vec![];
            for op in arr(input, "fan") {
                let mut f = Formatter::new(&k);
                for op in ops {
                    apply(&mut f, op);
                }
                let res = apply(&mut f, op);
                fan.push(json!({"res": res, "fmts": fmts(f.fmts())}));
            }
            json!({"r": "ok", "init": init, "steps": steps, "fan": fan})
        }
        _ => unreachable!(),
    }
}

fn all_delims(j: &J) -> bool {
    let own = j["k"] == "str" && "\"'#`|*^!%~&\\/:<>)".chars().all(|d| st(j, "p").contains(d));
    own || arr(j, "c").iter().chain(arr(j, "ks")).any(all_delims)
}

pub fn gen(prop: &str, r: &mut Rng) -> J {
    let max = *r.pick(&[6, 12, 25, 40]);
    let mut k = gen::tree(r, max);
    while gen::size(&k) > 70 {
        k = gen::tree(r, 12);
    }
    // what is written need not be readable for K04 to K06
    if ["K04", "K05", "K06"].contains(&prop) && r.chance(1, 4) {
        gen::widen(r, &mut k);
    }
    let n = gen::size(&k);
    let tree = to_tree(&k, true);
    match prop {
        "K01" => json!({"tree": tree, "cfg": gen::config(r)}),
        "K02" | "K03" => json!({"tree": tree, "ops": gen::ops(r, n, 8)}),
        "K04" => {
            // any unused character may delimit a text that contains all the usual ones; columns
            // count characters, which the specification can only do within the basic plane
            if all_delims(&tree) || tree.to_string().chars().any(|c| c as u32 > 0xffff) {
                return gen(prop, r);
            }
            let how = *r.pick(&["ops", "ops", "ops", "cfg", "as_str", "display"]);
            let (ops, pre) = match how {
                "ops" => (gen::ops(r, n, 6), if r.chance(1, 3) { gen::string(r) } else { String::new() }),
                "cfg" => (vec![gen::op("cfg", 0, 0, false, gen::config(r))], String::new()),
                _ => (vec![], String::new()),
            };
            json!({"tree": tree, "ops": ops, "pre": pre, "how": how})
        }
        "K05" => {
            let ops = if r.flip() { vec![] } else { gen::ops(r, n, 5) };
            let mut cfg = gen::config(r);
            let def = r.chance(1, 8);
            let aim = r.below(4);
            if aim == 0 {
                // or at the room some part needs on one line, with an indent before it
                let parts = gen::parts(&k);
                let one = FormattingConfig { width_limit: None, ..config(&cfg) };
                let w = r.pick(&parts).as_str_with_config(one).chars().count();
                cfg["w"] = (w + r.below(16)).saturating_sub(2).min(60000).into();
            } else if aim < 3 {
                // aim at a boundary: the width of some line of the text, give or take one
                let s = k.as_str_with_config(config(&cfg));
                let ws: Vec<usize> = s.lines().map(|l| l.chars().count()).collect();
                if !ws.is_empty() {
                    cfg["w"] = ((*r.pick(&ws) + r.below(4)).saturating_sub(2)).min(60000).into();
                }
            }
            json!({"tree": tree, "ops": ops, "cfg": cfg, "def": def})
        }
        "K06" => json!({"tree": tree, "ops": gen::ops(r, n, 12), "fan": []}),
        _ => unreachable!(),
    }
}

pub fn corrupt(prop: &str, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    match prop {
        "K01" | "K02" => o["v"] = json!({"k": "str", "id": [], "p": "corrupted", "nm": [], "ks": [], "c": []}),
        "K03" => {
            if o["r"] != "ok" {
                return None;
            }
            o["v"]["id"] = json!(["corrupted"]);
        }
        "K04" => o["text"] = format!("{} ", st(obs, "text")).into(),
        "K05" => {
            let b = obs["fmts"][0]["id"].as_bool()?;
            o["fmts"][0]["id"] = (!b).into();
        }
        "K06" => {
            let b = obs["init"][0]["id"].as_bool()?;
            o["init"][0]["id"] = (!b).into();
        }
        _ => return None,
    }
    Some(o)
}

/// Replayed vectors predict the value read back (K01, K02 without identities).
pub fn project(prop: &str, obs: &J) -> J {
    fn strip(j: &J, ids: bool) -> J {
        let kids: Vec<J> = arr(j, "c").iter().map(|x| strip(x, ids)).collect();
        let keys: Vec<J> = arr(j, "ks").iter().map(|x| strip(x, ids)).collect();
        let empty = kids.is_empty();
        let k = st(j, "k");
        let k = if empty && ["tuple", "cntr"].contains(&k) { "unit" } else { k };
        json!({"k": k, "id": if ids { j["id"].clone() } else { json!([]) }, "p": j["p"], "nm": j["nm"],
               "ks": keys, "c": kids})
    }
    if obs["r"] != "ok" {
        return json!({"r": obs["r"]});
    }
    json!({"r": "ok", "v": strip(&obs["v"], prop == "K03")})
}
