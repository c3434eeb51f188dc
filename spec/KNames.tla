------------------------------- MODULE KNames -------------------------------
(***************************************************************************)
(* Which texts may be an identity and which may name a field.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(s, i) == SubSeq(s, i, i)
NotInId == {"(", ")", "{", "}", "[", "]", "<", ">", " ", ",", ".", "/", "\\", "="}
NotInField == {" ", "/", "\\", "\"", "'", "\t"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsId(s) == \A i \in 1..Len(s) : At(s, i) \notin NotInId
IsField(s) == s # "" /\ At(s, 1) \notin Digits /\ \A i \in 1..Len(s) : At(s, i) \notin NotInField

(* the values stored under a name by a list of names, values numbered from 1 *)
Under(names, n) == {i \in 1..Len(names) : names[i] = n}
=============================================================================
