------------------------------- MODULE KHold -------------------------------
(***************************************************************************)
(* Holders of text or bytes: a holder is its content, a sequence of codes. *)
(* An operation is [o, a, b, v]: on holder a, source b, with content v.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Makes == {"brw", "from", "own", "fromown", "clone"}
Edits == {"into", "push", "clear", "cut", "set"}
Made(src, H, op) ==
    CASE op.o \in {"brw", "from"} -> src[op.b]
      [] op.o \in {"own", "fromown"} -> op.v
      [] op.o = "clone" -> H[op.a]
Edited(c, op) ==
    CASE op.o = "into" -> c
      [] op.o = "push" -> c \o op.v
      [] op.o = "clear" -> <<>>
      [] op.o = "cut" -> SubSeq(c, 1, Len(c) \div 2)
      [] op.o = "set" -> op.v
Step(src, H, op) == IF op.o \in Makes THEN Append(H, Made(src, H, op)) ELSE [H EXCEPT ![op.a] = Edited(H[op.a], op)]

(* order of contents *)
RECURSIVE Cmp(_, _)
Cmp(a, b) ==
    IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
    ELSE IF b = <<>> THEN 1
    ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE Cmp(Tail(a), Tail(b))
=============================================================================
