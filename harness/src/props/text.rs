//! K07..K09: the parser.

use super::layout::parsed;
use crate::gen;
use crate::rng::Rng;
use crate::tree::{arr, b91_decode, b91_encode, canon_f64, from_tree, hex, st, to_tree, unhex};
use serde_json::{json, Value as J};

pub fn exec(prop: &str, input: &J) -> J {
    let s = st(input, "s");
    match prop {
        "K07" => match kserd::parse::parse(s) {
            Ok(_) => json!({"r": "ok"}),
            Err(e) => {
                let show = |t: &kserd::parse::Trace| json!({"line": t.line, "col": t.col, "ls": t.linestr});
                let iter: Vec<_> = e.iter().collect();
                let get: Vec<_> = (0..e.len()).filter_map(|i| e.get(i)).collect();
                let shown = iter.iter().all(|t| !t.to_string().is_empty());
                json!({"r": "err", "n": e.len(), "empty": e.is_empty(),
                       "traces": iter.iter().map(show).collect::<Vec<_>>(),
                       "same": iter == get && e.get(e.len()).is_none() && shown,
                       "bt": !e.backtrace().is_empty() && !format!("{:?}", e).is_empty()})
            }
        },
        "K24" => match kserd::parse::parse(s) {
            Ok(_) => json!({"r": "ok"}),
            Err(e) => {
                let show = |t: kserd::parse::Trace| json!({"line": t.line, "col": t.col, "ls": t.linestr, "msg": t.msg, "show": t.to_string()});
                json!({"r": "err", "traces": e.iter().map(show).collect::<Vec<_>>(), "bt": e.backtrace(), "dbg": format!("{:?}", e)})
            }
        },
        "K09" if input.get("lit").is_some() => {
            let mut o = parsed(s);
            o["L"] = literals(s);
            o
        }
        _ => parsed(s),
    }
}

/// Bytes per UTF-16 unit of the text (a low surrogate counts zero).
fn widths(s: &str) -> Vec<usize> {
    let mut v = vec![];
    for c in s.chars() {
        v.push(c.len_utf8());
        if c.len_utf16() == 2 {
            v.push(0);
        }
    }
    v
}

/// Canonical number spelled by a run of number characters, empty if it is not one.
pub fn number_text(run: &str) -> String {
    let (neg, body) = match run.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, run),
    };
    if body.is_empty() {
        return String::new();
    }
    if body.bytes().all(|b| b.is_ascii_digit()) {
        return if neg {
            run.parse::<i128>().map(|x| x.to_string())
        } else {
            run.parse::<u128>().map(|x| x.to_string())
        }
        .unwrap_or_default();
    }
    let low = body.to_ascii_lowercase();
    if low == "inf" || low == "nan" {
        return match (low.as_str(), neg) {
            ("nan", _) => "NaN",
            (_, true) => "-inf",
            _ => "inf",
        }
        .into();
    }
    let (mant, exp) = match body.find('e') {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    if let Some(e) = exp {
        let e = e.strip_prefix('-').unwrap_or(e);
        if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) {
            return String::new();
        }
    }
    let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    if !digits(int) || !digits(frac) || (int.is_empty() && frac.is_empty()) {
        return String::new();
    }
    canon_f64(run.parse::<f64>().expect("harness: decimal"))
}

/// Tables of the literals that start at each UTF-16 position.
pub fn literals(s: &str) -> J {
    let numch = |c: char| "0123456789-.einfNa".contains(c);
    let chars: Vec<char> = s.chars().collect();
    let (mut n, mut b) = (vec![], vec![]);
    for i in 0..chars.len() {
        let lit = if numch(chars[i]) {
            let run: String = chars[i..].iter().take_while(|c| numch(**c)).collect();
            number_text(&run)
        } else {
            String::new()
        };
        let at = i >= 4 && chars[i - 4..i] == ['b', '9', '1', '\''];
        let bytes = if at {
            let t: String = chars[i..].iter().take_while(|c| **c != '\'').collect();
            hex(&b91_decode(&t))
        } else {
            String::new()
        };
        for _ in 0..chars[i].len_utf16() {
            n.push(J::from(lit.clone()));
            b.push(J::from(bytes.clone()));
        }
    }
    b.push("".into());
    json!({"n": n, "b": b})
}

/// Notation choices made while writing a document by hand.
struct Pen<'a> {
    r: &'a mut Rng,
    eol: &'static str,
    tabs: bool,
    loose: bool,
}

impl<'a> Pen<'a> {
    fn gap(&mut self) -> String {
        if !self.loose {
            return String::new();
        }
        (0..self.r.below(3)).map(|_| if self.r.flip() { ' ' } else { '\t' }).collect()
    }

    fn gap1(&mut self) -> String {
        format!("{} ", self.gap())
    }

    /// Whitespace that includes a line break.
    fn brk(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..if self.loose { self.r.below(3) } else { 0 } {
            s.push_str(&self.gap());
            s.push_str(self.eol);
        }
        s.push_str(&self.gap());
        s.push_str(self.eol);
        s.push_str(&self.gap());
        s
    }

    fn indent(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| if self.tabs || (self.loose && self.r.chance(1, 4)) { "\t" } else { "    " })
            .collect()
    }

    fn id(t: &J) -> Option<&str> {
        arr(t, "id").first().and_then(|x| x.as_str())
    }

    fn number(&mut self, p: &str) -> String {
        let whole = p.parse::<u128>().is_ok() || p.parse::<i128>().is_ok();
        if whole && (p.len() > 9 || self.r.chance(3, 4)) || p.contains(|c| "inN".contains(c)) {
            p.to_string()
        } else if whole {
            let forms = [format!("{}.0", p), format!("{}.", p), format!("{}e0", p), format!("{}0e-1", p)];
            self.r.pick(&forms).clone()
        } else {
            let f: f64 = p.parse().expect("harness: canonical float");
            if self.r.flip() || f.abs() > 1e30 {
                format!("{:e}", f)
            } else {
                p.to_string()
            }
        }
    }

    fn prim(&mut self, t: &J) -> String {
        let p = st(t, "p");
        let body = match st(t, "k") {
            "unit" => return format!("({})", self.gap()),
            "bool" => p.to_string(),
            "num" => self.number(p),
            "barr" => format!("b91'{}'", b91_encode(&unhex(p))),
            _ => {
                let mut ds: Vec<char> =
                    "\"'#`|*^!%~&\\/:<>)],}$+?;@.éλ¡".chars().filter(|d| !p.contains(*d)).collect();
                ds.push('\u{b7}');
                let d = *self.r.pick(&ds);
                if d == '"' && self.r.flip() {
                    format!("\"{}\"", p)
                } else {
                    format!("str{}{}{}", d, p, d)
                }
            }
        };
        match Self::id(t) {
            Some(i) => format!("<{}>{}{}", i, self.gap(), body),
            None => body,
        }
    }

    /// Delimited form; `inl` keeps it on one line.
    fn delim(&mut self, t: &J, inl: bool) -> String {
        let k = st(t, "k");
        let (open, close) = match k {
            "tuple" | "cntr" => ("(", ")"),
            "seq" => ("[", "]"),
            "map" => ("{", "}"),
            _ => return self.prim(t),
        };
        let c = arr(t, "c");
        let lines = !inl && !c.is_empty() && self.r.flip();
        let head = Self::id(t).map(|i| format!("{}{}", i, self.gap())).unwrap_or_default();
        let mut items = vec![];
        for i in 0..c.len() {
            let v = self.delim(&c[i], !lines);
            items.push(match k {
                "cntr" => format!("{}{}={}{}", st2(&t["nm"][i]), self.gap(), self.gap(), v),
                "map" => {
                    // keys may always spread over lines; keep to one line when inline
                    let key = self.delim(&t["ks"][i], !lines);
                    format!("{}{}:{}{}", key, self.gap(), self.gap(), v)
                }
                _ => v,
            });
        }
        let mut s = format!("{}{}", head, open);
        if lines {
            s.push_str(&self.brk());
            for (i, it) in items.iter().enumerate() {
                if i > 0 {
                    let sep = self.brk();
                    s.push_str(&sep);
                }
                s.push_str(it);
            }
            let sep = if self.r.chance(1, 4) { self.gap1() } else { self.brk() };
            s.push_str(&sep);
        } else {
            for (i, it) in items.iter().enumerate() {
                s.push_str(&self.gap());
                if i > 0 {
                    s.push(',');
                    s.push_str(&self.gap());
                }
                s.push_str(it);
            }
            s.push_str(&self.gap());
        }
        s.push_str(close);
        s
    }

    fn blank(&mut self) -> String {
        if self.loose && self.r.chance(1, 3) {
            format!("{}{}", self.gap(), self.eol)
        } else {
            String::new()
        }
    }

    /// Verbose form of a non-empty container at an indentation depth; ends with a line break.
    fn verbose(&mut self, t: &J, ind: usize, idrow: bool) -> String {
        let mut s = String::new();
        let (nm, c) = (arr(t, "nm"), arr(t, "c"));
        let mut rows = vec![];
        for i in 0..c.len() {
            let name = st2(&nm[i]).to_string();
            let v = &c[i];
            let kind = st(v, "k");
            let full = !arr(v, "c").is_empty();
            let hid = |p: &mut Self, on: bool| match Self::id(v) {
                Some(i) if on => format!("{}:{}{}", p.gap(), p.gap(), i),
                _ => String::new(),
            };
            if full && kind == "cntr" && self.r.flip() {
                let row = self.r.flip();
                let mut x = self.indent(ind);
                x.push_str(&format!("[{}{}{}{}]{}{}", self.gap(), name, hid(self, !row), self.gap(), self.gap(), self.eol));
                x.push_str(&self.verbose(v, ind + 1, row));
                rows.push(x);
            } else if full && (kind == "seq" || kind == "map") && self.r.flip() {
                let n = arr(v, "c").len();
                let mut x = String::new();
                let shown = self.r.below(n); // the identity may be given in any of the blocks
                for e in 0..n {
                    x.push_str(&self.blank());
                    x.push_str(&self.indent(ind));
                    x.push_str(&format!("[[{}{}{}{}]]{}{}", self.gap(), name, hid(self, e == shown), self.gap(), self.gap(), self.eol));
                    let item = &v["c"][e];
                    let nest = st(item, "k") == "cntr" && !arr(item, "c").is_empty() && self.r.flip();
                    if kind == "map" {
                        x.push_str(&self.gap());
                        let key = self.delim(&v["ks"][e], false);
                        x.push_str(&key);
                        x.push_str(&self.gap());
                        x.push(':');
                        x.push_str(&self.gap());
                        if nest {
                            x.push_str(self.eol);
                        }
                    }
                    if nest {
                        x.push_str(&self.verbose(item, ind + 1, true));
                    } else {
                        x.push_str(&self.gap());
                        x.push_str(&self.delim(item, false));
                        x.push_str(self.eol);
                    }
                }
                rows.push(x);
            } else {
                let mut x = self.indent(ind);
                // fewer than four spaces, or it would be a deeper level
                let lead = if self.loose { " ".repeat(self.r.below(3)) } else { String::new() };
                x.push_str(&format!("{}{}{}={}", lead, name, self.gap(), self.gap()));
                x.push_str(&self.delim(v, false));
                x.push_str(&self.gap());
                x.push_str(self.eol);
                rows.push(x);
            }
        }
        let row = match Self::id(t) {
            Some(i) if idrow => Some(format!("{}:{}{}{}", self.indent(ind), self.gap(), i, self.eol)),
            _ => None,
        };
        s.push_str(&row.unwrap_or_default());
        for x in rows {
            s.push_str(&self.blank());
            s.push_str(&x);
        }
        s
    }

    fn document(&mut self, t: &J) -> String {
        if st(t, "k") == "cntr" && !arr(t, "c").is_empty() && self.r.chance(2, 3) {
            let s = self.verbose(t, 0, true);
            if self.loose && self.r.flip() {
                format!("{}{}", s, self.brk())
            } else {
                s
            }
        } else {
            let (a, b) = (self.gap(), if self.r.chance(1, 3) { self.brk() } else { self.gap() });
            format!("{}{}{}", a, self.delim(t, false), b)
        }
    }
}

fn st2(j: &J) -> &str {
    j.as_str().unwrap()
}

fn written(r: &mut Rng, max: usize) -> (J, String) {
    let k = gen::tree(r, max);
    let t = to_tree(&k, false);
    let eol = if r.chance(1, 3) { "\r\n" } else { "\n" };
    let (tabs, loose) = (r.chance(1, 4), r.chance(2, 3));
    let mut t = t;
    // the unit value cannot carry an identity in text; an unnamed empty compound reads as unit
    fn fix(t: &mut J) {
        if t["k"] == "unit" {
            t["id"] = json!([]);
        }
        for f in ["ks", "c"] {
            for x in t[f].as_array_mut().unwrap() {
                fix(x);
            }
        }
    }
    fix(&mut t);
    // identities may have collided with an equal key
    let t = to_tree(&from_tree(&t), false);
    let mut pen = Pen { r, eol, tabs, loose };
    let s = pen.document(&t);
    (t, s)
}

const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "[[", "]]", "{", "}", "<", ">", "<a>", "=", ":", ",", " ", "  ", "\n", "\n\n", "\r\n", "\t",
    "    ", "\n    ", "\n        ", "a", "b", "Foo", "a = ", "b=1", "1", "-2", "1.5", "inf", "true", "false", "\"x\"",
    "\"", "str#a#", "str", "b91'\"!Mo4'", "b91'", "()", "Foo()", "Foo (", "[a]\n", "[[a]]\n", "[a:b]\n", ":id\n", "a: 1",
    "é", "-", "_", "1a", "\r", "'", "#", "^", "[[a:b]]\n", "NaN", "e", "true1", "a = [1, 2]\n", "{ 1: 2 }",
];

fn soup(r: &mut Rng) -> String {
    (0..r.range(1, 14)).map(|_| *r.pick(TOKENS)).collect()
}

/// Deep or long documents, valid and broken, that stress backtracking.
fn deep(r: &mut Rng) -> String {
    let n = r.range(1, 60);
    let units = [
        "(", "[", "{", "{1:", "{ ", "(a=", "[[", "[a]\n", "[[a]]\n", "Foo(", "<a> ", "[\n", "(\n", "{\n", "(a = [", "{{",
        "[[a]]\n1: ", "((", "[(", "{(", "a = [", "[[a]]\n{", "[[a]]\n(", "({1:", "[a]\n    ", "[[", "a=(",
    ];
    let u = *r.pick(&units);
    let v = *r.pick(&units);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(if i % 2 == 0 { u } else { v });
    }
    if r.flip() {
        let tails = ["1", "", "a", ")", "}", "]", "\n", "1:2", "()"];
        s.push_str(r.pick(&tails));
        let closers = [")", "]", "}", "\n)", "\n]", ":1}"];
        let c = *r.pick(&closers);
        for _ in 0..n {
            s.push_str(c);
        }
    }
    s
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let at = if r.chance(1, 12) { cs.len() } else { r.below(cs.len() + 1) };
        match r.below(7) {
            6 => cs.insert(at, char::from(r.below(128) as u8)),
            5 => cs.insert(at, *r.pick(&['\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{feff}'])),
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 => cs.truncate(at),
            2 if at < cs.len() => {
                let c = cs[at];
                cs.insert(at, c);
            }
            3 if at < cs.len() => {
                cs[at] = r.pick(TOKENS).chars().next().unwrap();
            }
            _ => {
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                cs.splice(at..at, t);
            }
        }
    }
    cs.into_iter().collect()
}

fn noise(r: &mut Rng) -> String {
    let n = r.below(40);
    (0..n)
        .map(|_| match r.below(4) {
            0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('é'),
            _ => (r.below(127) as u8) as char,
        })
        .collect()
}

/// Spellings of other notations and near misses of this one.
const FOREIGN: &[&str] = &[
    "r#x#", "r#\"x\"", "r\"x\"", "R\"x\"", "u\"x\"", "L\"x\"", "f\"x\"", "@\"x\"", "$\"x\"", "#\"x\"", "c\"x\"", "br\"x\"", "b'x'", "st\"x\"", "strr\"x\"", "str \"x\"", "r#\"x\"#", "b\"x\"", "'x'", "''", "\"\"\"x\"\"\"", "`x`", "\"a\\\"b\"", "\"a\"\"b\"", "\"a\" \"b\"", "s\"x\"",
    "strx", "str x ", "strAxA", "str1x1", "str-x-", "str_x_", "str", "str\"\"", "str\"x\"", "Str'x'", "str'x", "str''x'", "str\nx\n",
    "string'x'", "b91\"x\"", "b91'  '", "b91'é'", "b91''''", "b91#x#", "b64'x'", "B91''", "b91 ''", "b91'A'", "b92''", "0x1F", "0b1",
    "0o7", "1_000", "1__0", "_1", "1_", "+1", "+", "-", "--1", "- 1", ".5", "5.", "-.5", "1.5.2", "1e", "e1", "1e+5", "1e-5", "1E5",
    "1e5.5", "-0", "00", "0012", "1u8", "5i32", "3f", "1d", "1,5", "1'000", "nan", "NaN", "NAN", "-NaN", "inf", "-inf", "+inf", "Inf",
    "INF", "infinity", "-infinity", "True", "TRUE", "False", "tru", "truefalse", "null", "nil", "None", "Some(1)", "<>1", "<I>",
    "< I > 1", "<I>1", "<I><J> 1", "<I> ()", "<I> (1)", "<I> I(1)", "I<1>", "I 1", "I \"s\"", "I true", "I", "I ()", "I\n()", "I(1)(2)",
    "()()", "(,)", "(1,)", "(,1)", "[1,]", "[,1]", "[,]", "{1:2,}", "{,1:2}", "{1}", "{:}", "{1:}", "{:1}", "{1:2:3}", "{1=2}", "{a:1}",
    "{\"a\":1}", "(a=)", "(=1)", "(a = 1, 2)", "(1, a = 2)", "(a: 1)", "(a = 1; b = 2)", "[1;2]", "[1|2]", "(1 2)", "[1 2]",
    "{1:2 3:4}", "(1\n2)", "[a = 1]", "a.b", "a::b", "A::B(1)", "Foo.(1)", "1=1", "a=1=2", "a = b", "a == 1", "a := 1", "a : 1",
    "a -> 1", "// c", "# c", "-- c", "/* c */", "; c", "1 // c", "@", "$x", "&1", "*1", "!true", "1 + 1", "1..2", "1:2", "1,2", "1 2",
    "x y = 1", "é = 1", "_ = 1", "- = 1", "1a = 1", "[a", "a]", "[a]]", "[[a]", "[]a", "[ ]", "{ }", "( )", "<I>[]", "<I>{}", "[a:]",
    "[:a]", "[[:I]]", "[[a:]]", "[a:I:J]", ": I", ":", ":I = 1",
];

/// Text grown from the grammar with very few names and values, so that fields, keys and blocks
/// repeat and identities meet.
fn grown(r: &mut Rng, depth: usize) -> String {
    let simple = ["1", "2", "3", "\"s\"", "true", "()", "<I> 4", "str'q'", "inf", "-5", "b91''", "Foo()", "J(6)", "[]", "{}"];
    if depth == 0 || r.chance(1, 3) {
        return if r.chance(1, 24) { r.pick(FOREIGN).to_string() } else { r.pick(&simple).to_string() };
    }
    if r.chance(1, 20) {
        // lists in lists
        let n = r.range(1, 6);
        let m = if r.chance(1, 6) { r.range(1, 6) } else { n };
        let gap = *r.pick(&["", "", "", " ", "\n"]);
        return format!("{}{}{}{}{}", "[".repeat(n), gap, grown(r, depth - 1), gap, "]".repeat(m));
    }
    let id = *r.pick(&["", "", "", "I", "J ", "<I> "]);
    let n = r.below(4);
    let concise = r.chance(1, 3);
    let (o, c) = *r.pick(&[("(", ")"), ("(", ")"), ("[", "]"), ("{", "}"), ("{", "}")]);
    let fields = r.flip();
    let mut items = vec![];
    for _ in 0..n {
        items.push(match o {
            "(" if fields => format!("{} = {}", r.pick(&["a", "b", "c1"]), grown(r, depth - 1)),
            "{" => {
                let k = if r.chance(1, 4) { grown(r, depth - 1) } else { r.pick(&simple).to_string() };
                format!("{}: {}", k, grown(r, depth - 1))
            }
            _ => grown(r, depth - 1),
        });
    }
    let odd = ["\n", ",\n", ", ", " ", "\n,", "\n\n", ",", "", " \r\n\t", ",,", ": ", " = "];
    let usual = if concise { "\n" } else { *r.pick(&[", ", ",", ", ", " "]) };
    let sep = |r: &mut Rng, s| if r.chance(1, 12) { *r.pick(&odd) } else { s };
    let edge = if concise { "\n" } else { "" };
    let mut s = format!("{}{}{}", id, o, sep(r, edge));
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push_str(sep(r, usual));
        }
        s.push_str(x);
    }
    s.push_str(sep(r, edge));
    s.push_str(c);
    s
}

fn blocks(r: &mut Rng) -> String {
    let head = |r: &mut Rng| format!("[[{}{}]]", r.pick(&["a", "a", "b"]), r.pick(&["", "", ":I", ":J", ":K"]));
    let mut s = String::new();
    let mut ind = 0usize;
    let nl = *r.pick(&["\n", "\n", "\r\n", "\n\n"]);
    for _ in 0..r.range(1, 9) {
        let line = match r.below(9) {
            0..=2 => format!("{} = {}", r.pick(&["a", "b"]), grown(r, 2)),
            3 => r.pick(&["[a]", "[b:I]", "[ a : J ]"]).to_string(),
            4 | 5 => format!("{}{}{}", head(r), nl, grown(r, 1)),
            6 | 7 => format!(
                "{}{}{}: {}",
                head(r),
                nl,
                r.pick(&["1", "2", "\"s\"", "(1)"]),
                grown(r, 1)
            ),
            _ => r.pick(&[":I", ":J", "[[a]]", "1:", "5", ""]).to_string(),
        };
        for _ in 0..ind {
            s.push_str(match r.below(24) {
                0..=3 => "\t",
                4 => *r.pick(&[" ", "  ", "   ", "     ", " \t", "   \t", "\t ", "\u{a0}   ", "\r"]),
                _ => "    ",
            });
        }
        s.push_str(&line);
        s.push_str(nl);
        if line.starts_with('[') && r.chance(2, 3) || line.ends_with(':') {
            ind += 1;
        } else if r.chance(1, 4) {
            ind = ind.saturating_sub(1);
        }
    }
    s
}

fn formatted(r: &mut Rng, max: usize) -> String {
    let k = gen::tree(r, max);
    k.as_str_with_config(super::layout::config(&gen::config(r)))
}

/// A document of some thousand characters with odd characters at its edges.
fn long(r: &mut Rng) -> String {
    let n = r.range(1800, 2600);
    let edge = ["", "", " ", "\n", "\r\n", "\t", "\u{a0}", "\u{2003}", "\u{feff}", "\0", "\u{b}", ",", "x"];
    let mut body = match r.below(4) {
        0 => format!("\"{}\"", "word ".repeat(n / 5)),
        1 => format!("[{}]", "1, ".repeat(n / 3) + "2"),
        2 => "a".repeat(n),
        _ => "key = \"some value\"\n".repeat(1) + &(0..n / 12).map(|i| format!("f{} = {}\n", i, i)).collect::<String>(),
    };
    if r.chance(1, 4) {
        body.pop();
    }
    format!("{}{}{}", r.pick(&edge), body, r.pick(&edge))
}

pub fn gen(prop: &str, r: &mut Rng, i: usize) -> J {
    match prop {
        "K08" => {
            let (t, s) = written(r, 14);
            json!({"tree": t, "s": s, "L": literals(&s)})
        }
        "K07" | "K24" => {
            let s = match r.below(12) {
                _ if i == 0 => String::new(),
                0 | 1 => soup(r),
                2 | 3 => {
                    let s = written(r, 12).1;
                    mutate(r, &s)
                }
                4 | 5 => {
                    let s = formatted(r, 12);
                    mutate(r, &s)
                }
                6 => noise(r),
                7 => deep(r),
                8 => {
                    let s = if r.flip() { blocks(r) } else { grown(r, 3) };
                    mutate(r, &s)
                }
                9 => {
                    let s = deep(r);
                    mutate(r, &s)
                }
                _ => {
                    let s = soup(r);
                    mutate(r, &s)
                }
            };
            json!({"s": s, "bw": widths(&s)})
        }
        _ => {
            let s = match r.below(16) {
                _ if r.chance(1, 600) => long(r),
                0 | 1 => soup(r),
                2 => {
                    let s = soup(r);
                    mutate(r, &s)
                }
                3 => written(r, 8).1,
                4..=6 => {
                    let s = written(r, 10).1;
                    mutate(r, &s)
                }
                7 => {
                    let s = formatted(r, 10);
                    mutate(r, &s)
                }
                8 if r.chance(1, 3) => noise(r),
                8 if r.chance(1, 4) => r.pick(FOREIGN).to_string(),
                8..=10 => grown(r, 3),
                11..=13 => blocks(r),
                14 => {
                    let s = grown(r, 3);
                    mutate(r, &s)
                }
                _ => {
                    let s = blocks(r);
                    mutate(r, &s)
                }
            };
            json!({"s": s, "L": literals(&s)})
        }
    }
}

pub fn corrupt(prop: &str, input: &J, obs: &J) -> Option<J> {
    let mut o = obs.clone();
    match prop {
        "K07" => {
            if obs["r"] != "err" {
                return None;
            }
            o["traces"][0]["line"] = 100_000.into();
        }
        "K24" => {
            if obs["r"] != "err" {
                return None;
            }
            let n = obs["traces"].as_array().map_or(0, |t| t.len());
            match input["s"].as_str().map_or(0, |s| s.len()) % 3 {
                0 => o["bt"] = st(obs, "bt").replacen(" :: ", " : ", 1).into(),
                1 => o["traces"][n - 1]["msg"] = "expected 'x', found 'x'".into(),
                _ => o["dbg"] = format!("{}\n", st(obs, "dbg")).into(),
            }
        }
        "K08" => o["v"]["id"] = json!(["corrupted"]),
        _ => {
            let _ = input;
            if obs["r"] == "ok" {
                o = json!({"r": "err"});
            } else {
                o = json!({"r": "ok", "v": {"k": "unit", "id": [], "p": "", "nm": [], "ks": [], "c": []}});
            }
        }
    }
    Some(o)
}
