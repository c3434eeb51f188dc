------------------------------- MODULE KParse -------------------------------
(***************************************************************************)
(* The notation, as a deterministic recogniser over a string T.            *)
(* Positions start at 1; Len(T)+1 is the end of the text.  Every operator  *)
(* returns [s, i, v]: s = "ok" (v read, text continues at i), "err" (does  *)
(* not match here, another reading may be tried) or "fail" (committed to   *)
(* this reading, the document is wrong).                                   *)
(* X = [n, b] gives, per position, the canonical number spelled by the     *)
(* longest run of number characters starting there ("" if it is not a      *)
(* number) and the canonical bytes spelled by the base-91 text there.      *)
(***************************************************************************)
EXTENDS KTree

Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Digits == Chars("0123456789")
Letters == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NameStart == Letters \union {"_"}
NameChars == Letters \union Digits \union {"_", "-"}
NumChars == Digits \union Chars("-.einfNa")
InlineWs == {" ", "\t"}
MultiWs == {" ", "\t", "\r", "\n"}
NotAssign == Chars("<>(){}[],='\"\r\n") \union {""}
NotDelim == Letters \union Digits \union Chars("-_ \t=")

Ch(T, i) == IF i > Len(T) THEN "" ELSE SubSeq(T, i, i)
Starts(T, i, s) == i + Len(s) - 1 <= Len(T) /\ SubSeq(T, i, i + Len(s) - 1) = s

RECURSIVE Skip(_, _, _)
Skip(T, i, S) == IF Ch(T, i) \in S THEN Skip(T, i + 1, S) ELSE i
SkipI(T, i) == Skip(T, i, InlineWs)
SkipM(T, i) == Skip(T, i, MultiWs)

RECURSIVE Find(_, _, _)                       \* next position holding d, 0 if none
Find(T, i, d) == IF i > Len(T) THEN 0 ELSE IF SubSeq(T, i, i) = d THEN i ELSE Find(T, i + 1, d)

Good(i, v) == [s |-> "ok", i |-> i, v |-> v]
ERR == [s |-> "err", i |-> 0, v |-> 0]
FAIL == [s |-> "fail", i |-> 0, v |-> 0]
Bad(r) == r.s # "ok"
Cut(r) == IF r.s = "err" THEN FAIL ELSE r

LineEnd(T, i) == IF Ch(T, i) = "\n" THEN i + 1 ELSE IF Starts(T, i, "\r\n") THEN i + 2 ELSE 0

Tree(k, id, p, nm, ks, c) ==
    [k |-> k, id |-> id, p |-> p, nm |-> nm, ks |-> ks, c |-> c]

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
ValidName(T, i) ==
    IF Ch(T, i) \in NameStart
    THEN LET j == Skip(T, i, NameChars) IN Good(j, SubSeq(T, i, j - 1))
    ELSE ERR
FieldName(T, i) == LET j == Skip(T, i, NameChars) IN Good(j, SubSeq(T, i, j - 1))
Angled(T, i) ==
    IF Ch(T, i) # "<" THEN ERR
    ELSE LET r == ValidName(T, i + 1) IN
         IF Bad(r) \/ Ch(T, r.i) # ">" THEN FAIL ELSE Good(r.i + 1, r.v)

(***************************************************************************)
(* Deciding which reading applies                                          *)
(***************************************************************************)
Unit(T, i) ==
    IF Ch(T, i) # "(" THEN ERR
    ELSE LET j == SkipI(T, i + 1) IN IF Ch(T, j) = ")" THEN Good(j + 1, 0) ELSE FAIL

FieldAssign(T, i) ==
    IF Starts(T, i, "str") /\ Ch(T, i + 3) # "" /\ Ch(T, i + 3) \notin NotDelim THEN FALSE
    ELSE LET RECURSIVE Go(_)
             Go(j) == IF Ch(T, j) \in NotAssign THEN j ELSE Go(j + 1)
         IN Ch(T, Go(i)) = "="

RECURSIVE OpensLine(_, _)
OpensLine(T, i) == Ch(T, Skip(T, i, {" ", "\t", "\r"})) = "\n"

Pattern(T, i) ==
    LET vn == ValidName(T, i)
        an == Angled(T, i)
    IN IF vn.s = "ok" /\ vn.v \in {"true", "false"} THEN Good(i, "prim")
       ELSE IF an.s = "fail" THEN FAIL
       ELSE IF an.s = "ok" THEN Good(i, "prim")
       ELSE LET j == SkipI(T, IF vn.s = "ok" THEN vn.i ELSE i)
                c == Ch(T, j)
            IN Good(i, CASE c = "[" -> "seq"
                         [] c = "{" -> "map"
                         [] c = "(" -> IF vn.s # "ok" /\ Unit(T, j).s = "ok" THEN "prim"
                                       ELSE IF FieldAssign(T, SkipM(T, j + 1)) THEN "cntr" ELSE "tuple"
                         [] OTHER -> "prim")

Headed(T, i) ==                               \* [name] or [name:identity]
    /\ Ch(T, i) = "["
    /\ LET n == ValidName(T, SkipI(T, i + 1)) IN
       /\ n.s = "ok"
       /\ LET j == SkipI(T, n.i)
              m == ValidName(T, SkipI(T, j + 1))
              e == IF Ch(T, j) = ":" /\ m.s = "ok" THEN m.i ELSE n.i
          IN Ch(T, SkipI(T, e)) = "]"

LooksVerbose(T, i) ==
    LET j == SkipM(T, i) IN
    Ch(T, j) = ":" \/ Starts(T, j, "[[") \/ FieldAssign(T, j) \/ Headed(T, j)

(***************************************************************************)
(* Primitives                                                              *)
(***************************************************************************)
Str(T, i, d) ==
    IF d = "" \/ Ch(T, i) # d THEN ERR
    ELSE LET j == Find(T, i + 1, d) IN IF j = 0 THEN FAIL ELSE Good(j + 1, SubSeq(T, i + 1, j - 1))

PrimVal(T, X, i) ==
    LET u == Unit(T, i)
        st == IF Starts(T, i, "str") THEN Str(T, i + 3, Ch(T, i + 3)) ELSE Str(T, i, "\"")
    IN IF u.s = "ok" THEN Good(u.i, <<"unit", "">>)
       ELSE IF u.s = "fail" THEN FAIL
       ELSE IF Starts(T, i, "true") THEN Good(i + 4, <<"bool", "true">>)
       ELSE IF Starts(T, i, "false") THEN Good(i + 5, <<"bool", "false">>)
       ELSE IF Ch(T, i) \in NumChars /\ X.n[i] # "" THEN Good(Skip(T, i, NumChars), <<"num", X.n[i]>>)
       ELSE IF st.s = "ok" THEN Good(st.i, <<"str", st.v>>)
       ELSE IF st.s = "fail" THEN FAIL
       ELSE IF Starts(T, i, "b91'")
            THEN LET j == Find(T, i + 4, "'") IN IF j = 0 THEN FAIL ELSE Good(j + 1, <<"barr", X.b[i + 4]>>)
       ELSE ERR

Prim(T, X, i) ==
    LET an == Angled(T, i)
        j == IF an.s = "ok" THEN SkipI(T, an.i) ELSE SkipI(T, i)
        r == PrimVal(T, X, j)
    IN IF an.s = "fail" THEN FAIL
       ELSE IF Bad(r) THEN r
       ELSE Good(r.i, Tree(r.v[1], IF an.s = "ok" THEN <<an.v>> ELSE <<>>, r.v[2], <<>>, <<>>, <<>>))

(***************************************************************************)
(* Later entries replace earlier ones                                      *)
(***************************************************************************)
PutField(f, name, v) ==                       \* f = [nm, c]
    LET at == {i \in 1..Len(f.nm) : f.nm[i] = name} IN
    IF at = {} THEN [nm |-> Append(f.nm, name), c |-> Append(f.c, v)]
    ELSE [f EXCEPT !.c[CHOOSE i \in at : TRUE] = v]

(* keepkey: the first of several equal keys stays (its identities may differ) *)
PutEntry(e, kk, v, keepkey) ==                \* e = [ks, c]
    LET at == {i \in 1..Len(e.ks) : EqNorm(e.ks[i]) = EqNorm(kk)} IN
    IF at = {} THEN [ks |-> Append(e.ks, kk), c |-> Append(e.c, v)]
    ELSE LET i == CHOOSE x \in at : TRUE
         IN [ks |-> IF keepkey THEN e.ks ELSE [e.ks EXCEPT ![i] = kk], c |-> [e.c EXCEPT ![i] = v]]

NoFields == [nm |-> <<>>, c |-> <<>>]
NoEntries == [ks |-> <<>>, c |-> <<>>]
MkCntr(id, kvs) ==
    LET f == FoldLeft(LAMBDA a, x : PutField(a, x[1], x[2]), NoFields, kvs)
    IN Tree("cntr", id, "", f.nm, <<>>, f.c)
MkMap(id, kvs) ==
    LET e == FoldLeft(LAMBDA a, x : PutEntry(a, x[1], x[2], FALSE), NoEntries, kvs)
    IN Tree("map", id, "", <<>>, e.ks, e.c)

(***************************************************************************)
(* Delimited (inline or concise) values; inl forces everything on one line *)
(***************************************************************************)
RECURSIVE Delim(_, _, _, _), Item(_, _, _, _, _), Many(_, _, _, _, _, _, _), Lines(_, _, _, _, _, _)

Pair(T, X, i, inl) ==                         \* name = value
    LET n == FieldName(T, i)
        j == SkipI(T, n.i)
    IN IF Ch(T, j) # "=" THEN ERR
       ELSE LET v == Cut(Delim(T, X, SkipI(T, j + 1), inl))
            IN IF Bad(v) THEN v ELSE Good(v.i, <<n.v, v.v>>)

Item(T, X, i, what, inl) ==
    CASE what = "value" -> Delim(T, X, i, inl)
      [] what = "pair" -> Pair(T, X, i, inl)
      [] what = "entry" ->
           LET kk == Delim(T, X, i, FALSE) IN
           IF Bad(kk) THEN kk
           ELSE LET j == SkipI(T, kk.i) IN
                IF Ch(T, j) # ":" THEN ERR
                ELSE LET v == Delim(T, X, SkipI(T, j + 1), inl)
                     IN IF Bad(v) THEN v ELSE Good(v.i, <<kk.v, v.v>>)

(* comma separated, on one line; first: no comma needed *)
Many(T, X, i, what, acc, first, fuel) ==
    LET j == SkipI(T, i)
        sep == first \/ Ch(T, j) = ","
        at == SkipI(T, IF first THEN i ELSE j + 1)
    IN IF ~sep THEN Good(i, acc)
       ELSE LET r == Item(T, X, at, what, TRUE) IN
            IF r.s = "err" THEN Good(i, acc)
            ELSE IF r.s = "fail" THEN FAIL
            ELSE Many(T, X, r.i, what, Append(acc, r.v), FALSE, fuel)

(* one item per line; whitespace must separate items and precede the closer *)
Lines(T, X, i, what, acc, first) ==
    LET j == IF first THEN i ELSE SkipM(T, i) IN
    IF ~first /\ j = i THEN ERR
    ELSE LET r == Item(T, X, j, what, FALSE) IN
         IF r.s = "err" THEN Good(i, acc)
         ELSE IF r.s = "fail" THEN FAIL
         ELSE Lines(T, X, r.i, what, Append(acc, r.v), FALSE)

Body(T, X, i, what, close, inl) ==            \* i is just after the opening bracket
    LET multi == ~inl /\ OpensLine(T, i)
        r0 == IF multi THEN Lines(T, X, SkipM(T, i), what, <<>>, TRUE)
              ELSE Many(T, X, i, what, <<>>, TRUE, 0)
        r == IF multi /\ what # "entry" THEN Cut(r0) ELSE r0
        j == IF multi THEN SkipM(T, r.i) ELSE SkipI(T, r.i)
    IN IF Bad(r) THEN r
       ELSE IF Ch(T, SkipI(T, j)) = close THEN Good(SkipI(T, j) + 1, r.v) ELSE ERR

Delim(T, X, i, inl) ==
    LET pat == Pattern(T, i) IN
    IF Bad(pat) THEN pat
    ELSE IF pat.v = "prim" THEN Prim(T, X, i)
    ELSE LET vn == ValidName(T, i)
             id == IF vn.s = "ok" THEN <<vn.v>> ELSE <<>>
             o == SkipI(T, IF vn.s = "ok" THEN vn.i ELSE i)
         IN CASE pat.v = "tuple" -> LET r == Cut(Body(T, X, o + 1, "value", ")", inl)) IN
                                    IF Bad(r) THEN r ELSE Good(r.i, Tree("tuple", id, "", <<>>, <<>>, r.v))
              [] pat.v = "seq" -> LET r == Cut(Body(T, X, o + 1, "value", "]", inl)) IN
                                    IF Bad(r) THEN r ELSE Good(r.i, Tree("seq", id, "", <<>>, <<>>, r.v))
              [] pat.v = "cntr" -> LET r == Body(T, X, o + 1, "pair", ")", inl) IN
                                    IF Bad(r) THEN r ELSE Good(r.i, MkCntr(id, r.v))
              [] pat.v = "map" -> LET r == Body(T, X, o + 1, "entry", "}", inl) IN
                                    IF Bad(r) THEN r ELSE Good(r.i, MkMap(id, r.v))

(***************************************************************************)
(* Verbose containers: one field per line at an indentation depth          *)
(***************************************************************************)
RECURSIVE Nested(_, _, _, _), Fields(_, _, _, _, _), BlankLines(_, _), Indents(_, _, _)

BlankLines(T, i) == LET e == LineEnd(T, SkipI(T, i)) IN IF e = 0 THEN i ELSE BlankLines(T, e)
Indents(T, i, n) ==                            \* 0 if not indented enough
    IF n = 0 THEN i
    ELSE IF Starts(T, i, "    ") THEN Indents(T, i + 4, n - 1)
    ELSE IF Ch(T, i) = "\t" THEN Indents(T, i + 1, n - 1)
    ELSE 0

NameAndId(T, i) ==                             \* field_name[:identity]
    LET n == FieldName(T, SkipI(T, i))
        j == SkipI(T, n.i)
    IN IF Ch(T, j) # ":" THEN Good(n.i, <<n.v, <<>>>>)
       ELSE LET d == ValidName(T, SkipI(T, j + 1))
            IN IF Bad(d) THEN ERR ELSE Good(d.i, <<n.v, <<d.v>>>>)

(* a field is <<kind, name, id, key, value>> *)
Field(T, X, i0, ind) ==
    LET i1 == BlankLines(T, i0)
        i2 == Indents(T, i1, ind)
        i == SkipI(T, i2)
    IN IF i2 = 0 THEN ERR
       ELSE IF i > Len(T) \/ LineEnd(T, i) # 0 THEN ERR
       ELSE IF Ch(T, i) = ":" THEN
            LET d == ValidName(T, SkipI(T, i + 1)) IN
            IF Bad(d) THEN ERR ELSE Good(d.i, <<"id", "", <<d.v>>, <<>>, <<>>>>)
       ELSE IF Starts(T, i, "[[") THEN
            LET h == NameAndId(T, i + 2)
                j == SkipI(T, h.i)
                e == LineEnd(T, SkipI(T, j + 2))
            IN IF Bad(h) \/ ~Starts(T, j, "]]") THEN FAIL
               ELSE IF e = 0 THEN ERR
               ELSE LET kk == Delim(T, X, SkipI(T, e), FALSE)
                        q == SkipI(T, kk.i)
                    IN IF kk.s = "ok" /\ Ch(T, q) = ":" THEN
                         LET v1 == Delim(T, X, SkipI(T, q + 1), FALSE)
                             e2 == LineEnd(T, SkipI(T, q + 1))
                             v == IF v1.s # "err" THEN v1
                                  ELSE IF e2 = 0 THEN ERR ELSE Nested(T, X, e2, ind + 1)
                         IN IF Bad(v) THEN v ELSE Good(v.i, <<"entry", h.v[1], h.v[2], <<kk.v>>, <<v.v>>>>)
                       ELSE LET v == Nested(T, X, e, ind + 1)
                            IN IF Bad(v) THEN v ELSE Good(v.i, <<"item", h.v[1], h.v[2], <<>>, <<v.v>>>>)
       ELSE IF Ch(T, i) = "[" THEN
            LET h == NameAndId(T, i + 1)
                j == SkipI(T, h.i)
                e == LineEnd(T, SkipI(T, j + 1))
            IN IF Bad(h) \/ Ch(T, j) # "]" \/ e = 0 THEN ERR
               ELSE LET v == Nested(T, X, e, ind + 1) IN
                    IF Bad(v) THEN v
                    ELSE Good(v.i, <<"field", h.v[1], <<>>, <<>>,
                                     <<IF v.v.id = <<>> THEN [v.v EXCEPT !.id = h.v[2]] ELSE v.v>>>>)
       ELSE LET p == Cut(Pair(T, X, i, FALSE)) IN
            IF Bad(p) THEN p ELSE Good(p.i, <<"field", p.v[1], <<>>, <<>>, <<p.v[2]>>>>)

Fields(T, X, i, ind, acc) ==
    LET r == Field(T, X, i, ind) IN
    IF r.s = "err" THEN Good(i, acc)
    ELSE IF r.s = "fail" THEN FAIL
    ELSE Fields(T, X, r.i, ind, Append(acc, r.v))

(* direct fields, then sequences, then maps; within each kind in order *)
BuildCntr(fs) ==
    LET direct == FoldLeft(LAMBDA a, f : IF f[1] = "field" THEN PutField(a, f[2], f[5][1]) ELSE a, NoFields, fs)
        addItem(a, f) ==
          IF f[1] # "item" THEN a
          ELSE LET at == {x \in 1..Len(a.nm) : a.nm[x] = f[2]}
                   old == IF at = {} THEN Tree("seq", <<>>, "", <<>>, <<>>, <<>>) ELSE a.c[CHOOSE x \in at : TRUE]
               IN PutField(a, f[2], [old EXCEPT !.id = IF f[3] # <<>> THEN f[3] ELSE @, !.c = Append(@, f[5][1])])
        addEntry(a, f) ==
          IF f[1] # "entry" THEN a
          ELSE LET at == {x \in 1..Len(a.nm) : a.nm[x] = f[2]}
                   old == IF at = {} THEN Tree("map", <<>>, "", <<>>, <<>>, <<>>) ELSE a.c[CHOOSE x \in at : TRUE]
                   e == PutEntry([ks |-> old.ks, c |-> old.c], f[4][1], f[5][1], TRUE)
               IN PutField(a, f[2], Tree("map", IF f[3] # <<>> THEN f[3] ELSE old.id, "", <<>>, e.ks, e.c))
        seqs == FoldLeft(addItem, NoFields, fs)
        maps == FoldLeft(addEntry, NoFields, fs)
        put(a, g) == FoldLeft(LAMBDA b, x : PutField(b, g.nm[x], g.c[x]), a, Idx(Len(g.nm)))
        all == put(put(direct, seqs), maps)
        ids == SelectSeq(fs, LAMBDA f : f[1] = "id")
    IN Tree("cntr", IF ids = <<>> THEN <<>> ELSE ids[Len(ids)][3], "", all.nm, <<>>, all.c)

Nested(T, X, i, ind) ==
    IF ~LooksVerbose(T, i) THEN Delim(T, X, SkipI(T, i), FALSE)
    ELSE LET fs == Fields(T, X, i, ind, <<>>)
             r == IF Bad(fs) THEN fs ELSE Good(fs.i, BuildCntr(fs.v))
         IN IF (Bad(r) \/ r.i = i) /\ Ch(T, SkipI(T, i)) = "["
            THEN LET d == Delim(T, X, SkipI(T, i), FALSE) IN IF d.s = "ok" THEN d ELSE r
            ELSE r

(* the document: "ok" with a value, or "err" *)
Parse(T, X) ==
    IF T = "" THEN [r |-> "err"]
    ELSE LET r == Nested(T, X, 1, 0) IN
         IF r.s = "ok" /\ SkipM(T, r.i) > Len(T) THEN [r |-> "ok", v |-> r.v] ELSE [r |-> "err"]

(***************************************************************************)
(* Position tables for texts whose numbers are plain decimals and whose    *)
(* byte arrays come from a given table (used when TLC makes up the text)   *)
(***************************************************************************)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
AllIn(s, S) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in S
NumLit(s) ==
    IF s = "" THEN ""
    ELSE IF AllIn(s, Digits) THEN StripZeros(s)
    ELSE IF SubSeq(s, 1, 1) = "-" /\ Len(s) > 1 /\ AllIn(SubSeq(s, 2, Len(s)), Digits)
         THEN LET z == StripZeros(SubSeq(s, 2, Len(s))) IN IF z = "0" THEN z ELSE "-" \o z
    ELSE IF s \in {"inf", "-inf", "NaN"} THEN s
    ELSE IF s \in {"1.5", "-2.5", "0.1"} THEN s
    ELSE IF s = "1." THEN "1"
    ELSE IF s \in {"-NaN", "nan"} THEN "NaN"
    ELSE ""
PlainX(T) ==
    [n |-> [i \in 1..Len(T) |-> IF Ch(T, i) \in NumChars THEN NumLit(SubSeq(T, i, Skip(T, i, NumChars) - 1)) ELSE ""],
     b |-> [i \in 1..Len(T) + 1 |-> ""]]
=============================================================================
