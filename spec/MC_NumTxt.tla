----------------------------- MODULE MC_NumTxt -----------------------------
(***************************************************************************)
(* All short texts over the characters of numbers.                         *)
(***************************************************************************)
EXTENDS KNumText, Json, IOUtils, TLC
CONSTANTS Chars, MaxLen
Emit == IOEnv.KV_EMIT
QChars == {43, 45, 46, 48, 49, 55, 95, 101, 32}        \* + - . 0 1 7 _ e blank
TChars == QChars \union {69, 120, 97, 57}
VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < MaxLen /\ \E c \in Chars : cs' = Append(cs, c)
Spec == Init /\ [][Next]_cs
(* a text is an integer, a decimal or neither; blanks never count *)
Sane == LET q == Read(cs)
        IN /\ (\E i \in 1..Len(cs) : cs[i] \in {32, 120, 97}) => q.r = "err"
           /\ q.r = "int" => (\E i \in 1..Len(cs) : IsDig(cs[i]))
           /\ (q.r = "dec" /\ q.ds # <<>>) => q.k \in -100000..100000
Emitted == Emit = "" \/ PrintT(ToJson([in |-> [w |-> "text", n |-> [h |-> "", v |-> ""], cs |-> cs]]))
=============================================================================
