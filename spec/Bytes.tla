------------------------------- MODULE Bytes -------------------------------
(* Text as byte sequences: conversion of ASCII literals and common helpers.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTab == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} \cup {"\n", "\t", "\r"} |->
              CASE ch = "\n" -> 10 [] ch = "\t" -> 9 [] ch = "\r" -> 13
                [] OTHER -> 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]
Bs(s) == TLCEval([i \in 1..Len(s) |-> CodeTab[SubSeq(s, i, i)]])

HasPrefix(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
HasSuffix(b, p) == Len(b) >= Len(p) /\ SubSeq(b, Len(b) - Len(p) + 1, Len(b)) = p
From(b, i) == SubSeq(b, i, Len(b))
(* position of the first occurrence of p in b, or 0 *)
IndexOf(b, p) ==
  LET hits == {i \in 1..(Len(b) - Len(p) + 1) : SubSeq(b, i, i + Len(p) - 1) = p}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
TrimL(b) == LET k == {i \in 1..Len(b) : ~IsSpace(b[i])}
            IN IF k = {} THEN <<>> ELSE From(b, CHOOSE i \in k : \A j \in k : i <= j)
TrimR(b) == LET k == {i \in 1..Len(b) : ~IsSpace(b[i])}
            IN IF k = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE i \in k : \A j \in k : i >= j)
Trim(b) == TrimR(TrimL(b))
(* pieces between separators, like strings.Split                              *)
Split(b, sep) ==
  LET F(acc, c) == IF c = sep THEN Append(acc, <<>>)
                   ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)]
  IN FoldLeft(F, << <<>> >>, b)
(* lexicographic order of byte sequences                                      *)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(From(a, 2), From(b, 2))
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
=============================================================================
