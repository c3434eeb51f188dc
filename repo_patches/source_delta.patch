From 5059d542edecec44944cd40245f2bb2a7ef0a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:46 +0000
Subject: [PATCH 01/24] fix: keep the preceding character when a tuple's
 identity is hidden

The tuple writer removed the space after the identity whenever the value
had an identity, even if the identity was not written.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 41111a710a162251dfbf24d059bf0f584aaa493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:46 +0000
Subject: [PATCH 02/24] fix: indent verbose map entries to the column of their
 container

Nested map fields were written at column zero and parsed back as fields
of the outermost container.
---
 src/fmt/maps.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..a59df7b 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,11 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
-- 
2.43.0


From 59dd7f6005a59b8ce152d34c367120f4cb1086f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:09 +0000
Subject: [PATCH 03/24] fix: cap map keys at the concise representation

A verbose request on a key was accepted, which made writing or
width-fitting a map with structured keys panic.
---
 src/fmt/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..bb15f61 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -300,7 +300,10 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let mut max_line_repr = max_line_repr(&node.value());
+        if node.is_key() {
+            max_line_repr = std::cmp::min(max_line_repr, Repr::Concise);
+        }
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
-- 
2.43.0


From 5bfa9753332eeb2e91c58399ce6e6c641e5338d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:09 +0000
Subject: [PATCH 04/24] fix: accept multi-line keys in verbose map entries

The formatter writes structured keys over several lines, but only inline
keys were recognised when parsing.
---
 src/parse/cntr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..c262bfa 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map has an inline or concise kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd-concise:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From 59e61fc502c0c9550f1050f8efafcd7b4afe1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:45 +0000
Subject: [PATCH 05/24] fix: read identities that start with true or false

An identity such as 'trueish' was taken for a boolean because only its
first letters were looked at.
---
 src/parse/heuristics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..306f37d 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,8 +22,10 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
-        return Ok((orig, Nonprim::None));
+    if let Ok((_, name)) = valid_name::<()>(orig) {
+        if name.as_str() == "true" || name.as_str() == "false" {
+            return Ok((orig, Nonprim::None));
+        }
     }
 
     let (i, ident_) = opt(ident(true))(orig)?;
-- 
2.43.0


From f6b161f15154cad7329bcb5709b6fb3305140f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:45 +0000
Subject: [PATCH 06/24] fix: do not join a list element to a bracket on the
 next line

In a multi-line list 'inf' or 'NaN' followed by a line opening a bracket
was read as an identity.
---
 src/parse/heuristics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 306f37d..4fc518c 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -40,7 +40,7 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?; // the opening must be on the same line as the identity
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From 570f247793e295692223e3cb67ef42a9532a1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:45 +0000
Subject: [PATCH 07/24] fix: do not mistake a string containing '=' for a field
 assignment

Strings and lists at the start of a document or tuple were parsed as
containers when their text contained an equals sign.
---
 src/parse/heuristics.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 4fc518c..9f69b0e 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -110,7 +110,13 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    // but it cannot run into a string value, which might contain an '='
+    let delimits_str = |c: char| !(c.is_ascii_alphanumeric() || "-_ \t=".contains(c));
+    if matches!(i.strip_prefix("str"), Some(x) if x.starts_with(delimits_str)) {
+        return false;
+    }
+
+    let not = "<>(){}[],='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
-- 
2.43.0


From e8e5b42c465d4aeb5d7c4be9a31ba7397a03b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:47 +0000
Subject: [PATCH 08/24] fix: delimit strings only with characters the parser
 can tell apart

The '=', '_' and '(' delimiters read as a field, a name and a tuple, and
a string using every delimiter panicked.
---
 src/fmt/prims.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..1668404 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -39,8 +39,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +53,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +63,14 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // any character that is not in the string can delimit it
+        let delim = ('\u{a1}'..=char::MAX)
+            .find(|&c| !val.contains(c))
+            .expect("exhausted delimiter options for formatting a string");
+        write!(buf, "str{}{}{}", delim, val, delim)
     }
     .ok();
 }
@@ -96,7 +94,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +101,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +125,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +132,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From b5410aaebe6ccf8cefc9e7fe83f71c3c69cebc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:21 +0000
Subject: [PATCH 09/24] fix: recognise a first field header that carries an
 identity

A container starting with '[name:identity]' was not recognised as a
verbose container.
---
 src/parse/heuristics.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 9f69b0e..65e3413 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -82,7 +82,14 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
             tag(s),
             terminated(
                 ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
+                preceded(
+                    // field can have an identity
+                    opt(preceded(
+                        ignore_inline_whitespace(char(':')),
+                        ignore_inline_whitespace(valid_name),
+                    )),
+                    ignore_inline_whitespace(tag(e)),
+                ),
             ),
         )(i)
         .is_ok()
-- 
2.43.0


From 5382ec5bc09f4e86737ec47e340ed54d8ed0110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:21 +0000
Subject: [PATCH 10/24] fix: parse a sequence whose start looks like a field
 header

'[[1]]' or '[true]' at the start of a document, or as a sequence entry,
was rejected because it was only tried as a '[[name]]' or '[name]' header.
---
 src/parse/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..10dadc2 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -96,7 +96,14 @@ fn kserd_nested<'a, E: CxErr<'a>>(
         let (i, verbose) = pattern_match_verbose(i)?;
         if verbose {
             // verbose can only be a Container type!
-            cntr::verbose(indents)(i)
+            let cntr = cntr::verbose(indents)(i);
+            let no_fields = cntr.as_ref().map_or(true, |(rem, _)| rem.len() == i.len());
+            if no_fields && i.trim_start_matches(&[' ', '\t'][..]).starts_with('[') {
+                // what looked like a field header can be a (nested) sequence
+                ignore_inline_whitespace(kserd_concise::<E>)(i).or(cntr)
+            } else {
+                cntr
+            }
         } else {
             ignore_inline_whitespace(kserd_concise)(i)
         }
-- 
2.43.0


From cc7e504b074787941f2ac0bbcf8c9de00f130fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:43 +0000
Subject: [PATCH 11/24] fix: write the identity of verbose sequences and maps

The parser reads '[[name:identity]]' headers, but the formatter dropped
the identity even when its display was requested.
---
 src/fmt/maps.rs | 4 ++++
 src/fmt/seqs.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index a59df7b..0b35aa0 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -96,6 +96,10 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                if let (true, Some(id)) = (fmt.id, id) {
+                    buf.push(':');
+                    buf.push_str(id);
+                }
                 buf.push_str("]]\n");
                 write_indent(&mut buf, col);
 
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..ec145e5 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -63,6 +63,10 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                if let (true, Some(id)) = (fmt.id, id) {
+                    buf.push(':');
+                    buf.push_str(id);
+                }
                 buf.push_str("]]\n");
 
                 // write value
-- 
2.43.0


From 3d4a0588ee1062651951e90515a9e35ec51b5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:07 +0000
Subject: [PATCH 12/24] fix: make number equality and ordering exact and
 consistent

Equality was asymmetric and tolerant, signed zeros and NaNs ordered
differently from how they compared equal, and floats beyond the integer
range compared equal to the largest integer.
---
 src/ds/num.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..56ffb6f 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -276,22 +276,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -378,12 +363,17 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
     }
 }
 
+/// First (float) number that is above the `u128` range.
+const U128_END: f64 = 340282366920938463463374607431768211456.0;
+/// First (float) number that is above the `i128` range, the negation is the minimum `i128`.
+const I128_END: f64 = 170141183460469231731687303715884105728.0;
+
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= U128_END || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -402,9 +392,9 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < -I128_END {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= I128_END || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
@@ -428,13 +418,13 @@ fn rev_ordering(ord: Ordering) -> Ordering {
     }
 }
 
-/// make sure to check infinities and nan beforehand
+/// make sure to check the range and nan beforehand
 /// make sure to check for positivity
 fn float_bounds_uint(f: f64) -> (u128, u128) {
     (f.floor() as u128, f.ceil() as u128)
 }
 
-/// make sure to check infinities and nan beforehand
+/// make sure to check the range and nan beforehand
 fn float_bounds_int(f: f64) -> (i128, i128) {
     (f.floor() as i128, f.ceil() as i128)
 }
-- 
2.43.0


From 23d6b3fff5c9d439827642de30f247fcccda846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:15 +0000
Subject: [PATCH 13/24] fix: hash equal zeroes and NaNs the same

---
 src/ds/num.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 56ffb6f..622b7a1 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -253,7 +253,16 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        let x = self.as_f64();
+        // equal numbers must hash the same, so canonicalize zeroes and NaNs
+        let x = if x.is_nan() {
+            f64::NAN
+        } else if x == 0.0 {
+            0.0
+        } else {
+            x
+        };
+        x.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From 1a501a985d9a9477fccd1ad1e273e4b5dddfd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:23 +0000
Subject: [PATCH 14/24] fix: refuse to convert floats outside the integer range

Large floats were converted to the largest or smallest integer.
---
 src/ds/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 622b7a1..7ce7811 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -143,7 +143,7 @@ impl Number {
                 if x.is_finite() && x >= &0.0 {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && r < U128_END {
                         return Ok(r as u128);
                     }
                 }
@@ -179,7 +179,7 @@ impl Number {
                 if x.is_finite() {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && (-I128_END..I128_END).contains(&r) {
                         return Ok(r as i128);
                     }
                 }
-- 
2.43.0


From 1c21118f0ce286fb19848e51fb6d09fa9013680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:32 +0000
Subject: [PATCH 15/24] fix: print large floats so that they read back as the
 same number

Whole floats beyond 2^53 were printed with padded digits, which read back
as a different integer or did not fit an integer at all.
---
 src/ds/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 7ce7811..4f07017 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -215,6 +215,8 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // the digits of larger whole numbers are not exact, and would read as an integer
+            Float(x) if x.is_finite() && x.abs() >= 9007199254740992.0 => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
-- 
2.43.0


From 4ca2e1aecf33d572b9ad8620ecebbb555bf9b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:04 +0000
Subject: [PATCH 16/24] fix: order empty tuples and empty containers as equal

They compare equal, but the derived ordering told them apart, so a map
could hold a key and not find it under an equal one.
---
 src/ds/val.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..c49cf79 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,47 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        // An empty tuple and an empty container are equal, so they must share an order.
+        fn kind(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Cntr(x) if x.is_empty() => 5,
+                Tuple(x) if x.is_empty() => 5,
+                Tuple(_) => 6,
+                Cntr(_) => 7,
+                Seq(_) => 8,
+                Map(_) => 9,
+            }
+        }
+
+        match (self, b) {
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            _ => kind(self).cmp(&kind(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From 6dba05c0bc64711e0a8b8e8fedc8bfafa1aac4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:09 +0000
Subject: [PATCH 17/24] fix: parse map keys once

Every map key was tried twice, so unbalanced nested braces took time
exponential in their depth.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..7fa3ede 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise,
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From e195af656f51c4a2d0d96f15300a762444fddad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:26 +0000
Subject: [PATCH 18/24] fix: delimit sequences and maps that have no field name

A sequence or map inside another sequence or map could be verbose, so
containers inside it were written as verbose rows between its brackets
and the text could not be parsed.
---
 src/fmt/formatter.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index bb15f61..02b5dd2 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -104,11 +104,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
+            let line = max_line_repr_in_place(&node);
 
             let id = true;
 
@@ -300,10 +296,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let mut max_line_repr = max_line_repr(&node.value());
-        if node.is_key() {
-            max_line_repr = std::cmp::min(max_line_repr, Repr::Concise);
-        }
+        let max_line_repr = max_line_repr_in_place(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -379,6 +372,24 @@ fn max_line_repr(nv: &NodeValue) -> Repr {
     }
 }
 
+/// The maximum representation of a node given where it is placed.
+///
+/// Map keys, and sequences or maps which are not the field of a container (there is no name to
+/// write in a header), have to be delimited.
+fn max_line_repr_in_place(node: &Node) -> Repr {
+    let value = node.value();
+    let unnamed_list = matches!(value, NodeValue::Seq(_) | NodeValue::Map(_))
+        && node
+            .parent()
+            .map_or(false, |p| !matches!(p.value(), NodeValue::Cntr(_)));
+    let max = max_line_repr(&value);
+    if node.is_key() || unnamed_list {
+        std::cmp::min(max, Repr::Concise)
+    } else {
+        max
+    }
+}
+
 /// Validates that the request can be made.
 /// Will return the `Repr` if it can, otherwise the error if not.
 fn validate_requst_repr(
-- 
2.43.0


From 38597d51339b285f4ffeb95ff9cce0509c178054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:17 +0000
Subject: [PATCH 19/24] fix: reject integers wider than 128 bits

The integer parser missed some overflows of 39 digit numbers and read
them as a different number, and it panicked on the text '-_'.
---
 src/ds/num.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 4f07017..38fe369 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -225,13 +225,10 @@ impl fmt::Display for Number {
 impl FromStr for Number {
     type Err = IntoNumberErr;
     fn from_str(s: &str) -> Result<Self, IntoNumberErr> {
-        use ::lexical_core::parse_with_options as parse;
         if s.is_empty() {
             return Err(IntoNumberErr);
         }
 
-        const FMT: u128 = ::lexical_core::format::OCAML_STRING;
-        let options = &::lexical_core::ParseIntegerOptions::new();
         let bytes = s.as_bytes();
         let neg = bytes[0] == b'-';
         let valid_int = bytes
@@ -241,14 +238,14 @@ impl FromStr for Number {
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
-        } else if neg {
-            parse::<i128, FMT>(bytes, options)
-                .map(Int)
-                .map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(bytes, options)
-                .map(Uint)
-                .map_err(|_| IntoNumberErr)
+            // underscores only separate digits
+            let digits = s.replace('_', "");
+            if neg {
+                digits.parse().map(Int).map_err(|_| IntoNumberErr)
+            } else {
+                digits.parse().map(Uint).map_err(|_| IntoNumberErr)
+            }
         }
     }
 }
-- 
2.43.0


From b593585ec7ac51239dde23a2bd4d1e4e553580c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:36 +0000
Subject: [PATCH 20/24] fix: decode newtype and tuple structs named Some or
 None

---
 src/encode/decoder.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..17bd1e3 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,8 +183,8 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        bytes byte_buf option unit seq tuple
+        map struct identifier ignored_any
     }
 
     de_integer! { unsigned =>
@@ -241,6 +241,32 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    // the type is known to be a struct, so an identity of `Some` or `None` does not make it an option
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            Value::Tuple(mut v) if v.len() == 1 => {
+                visitor.visit_newtype_struct(Decoder(v.pop().expect("only one item")))
+            }
+            val => Decoder(Kserd { val, ..self.0 }).deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: usize,
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            Value::Tuple(v) => visitor.visit_seq(SeqDeserializer::new(v.into_iter())),
+            val => Decoder(Kserd { val, ..self.0 }).deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
-- 
2.43.0


From 6008bbdcd990c204e7064b0bdbd544558246b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 21/24] fix: decode struct variants without fields after a
 round trip through text

---
 src/encode/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 17bd1e3..c42f89f 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -363,6 +363,10 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            // an empty container is written, and so parsed, as an empty tuple
+            Value::Tuple(v) if v.is_empty() => visitor.visit_map(MapDeserializer::new(
+                Fields::new().into_iter().map(|(k, v)| (k.inner, v)),
+            )),
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
-- 
2.43.0


From edf26ab615e6c90d7eedb69ddba8717927bb2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:12 +0000
Subject: [PATCH 22/24] fix: decode a struct without fields named None after a
 round trip through text

---
 src/encode/decoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index c42f89f..07dbfe1 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -184,7 +184,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     forward_to_deserialize_any! {
         bool str string
         bytes byte_buf option unit seq tuple
-        map struct identifier ignored_any
+        map identifier ignored_any
     }
 
     de_integer! { unsigned =>
@@ -267,6 +267,21 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    // a struct without fields is written, and so parsed, as an empty tuple
+    fn deserialize_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            Value::Tuple(v) if v.is_empty() => {
+                visitor.visit_seq(SeqDeserializer::new(v.into_iter()))
+            }
+            val => Decoder(Kserd { val, ..self.0 }).deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
-- 
2.43.0


From 35731fb5d56d68d542efff6daa89c8564fc86fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:52 +0000
Subject: [PATCH 23/24] fix: name the float type in decoding errors instead of
 $t

---
 src/encode/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 07dbfe1..d90b1f1 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -204,13 +204,13 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
             Value::Num(n) => visitor.visit_f32(n.as_f64() as f32),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f32")),
         }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
             Value::Num(n) => visitor.visit_f64(n.as_f64()),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f64")),
         }
     }
 
-- 
2.43.0


From c2e9b213f5be8c3a8e6b7287cd90191da23e5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:17 +0000
Subject: [PATCH 24/24] fix: do not report integers wider than 64 bits as 0 in
 decoding errors

---
 src/encode/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index d90b1f1..0d3d8c1 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -397,8 +397,12 @@ fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
         Value::Unit => Unexpected::Unit,
         Value::Bool(v) => Unexpected::Bool(*v),
         Value::Num(n) => match n {
-            Number::Uint(n) => Unexpected::Unsigned((*n).try_into().unwrap_or_default()),
-            Number::Int(n) => Unexpected::Signed((*n).try_into().unwrap_or_default()),
+            Number::Uint(n) => (*n)
+                .try_into()
+                .map_or(Unexpected::Other("integer"), Unexpected::Unsigned),
+            Number::Int(n) => (*n)
+                .try_into()
+                .map_or(Unexpected::Other("integer"), Unexpected::Signed),
             Number::Float(n) => Unexpected::Float(*n),
         },
         Value::Str(v) => Unexpected::Str(v.as_str()),
-- 
2.43.0

