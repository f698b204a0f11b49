---------------------------- MODULE KeywordsBig ----------------------------
(* C22: families of keyword lists that grow with d: declarations, names,       *)
(* blanks, one malformed declaration somewhere.  What they declare is known     *)
(* from their construction and tied to the specified reader up to ReadUpTo.      *)
EXTENDS Keywords, Json, CSV, IOUtils
CONSTANTS Depths, ReadUpTo
VARIABLES fam, d
vars == <<fam, d>>
Each(G(_), k) == Concat([i \in 1..k |-> G(i)])
NameOf(i) == Bs("k") \o NumText(i)
Shape(i) == i % 5
DeclOf(i) == CASE Shape(i) = 0 -> Kw(NameOf(i), 0, 1, 0)
               [] Shape(i) = 1 -> Kw(NameOf(i), 0, i, 0)
               [] Shape(i) = 2 -> Kw(NameOf(i), 0, i + 1, i + 2)
               [] Shape(i) = 3 -> Kw(NameOf(i), i + 1, i, 0)
               [] Shape(i) = 4 -> Kw(NameOf(i), i, i + 9, i + 3)
TextOf(i) == LET k == DeclOf(i)
             IN k.name \o (IF Shape(i) = 0 THEN <<>> ELSE <<58>> \o (IF k.c > 0 THEN NumText(k.c) \o <<99, 44>> ELSE <<>>) \o NumText(k.id)
                           \o (IF k.pl > 0 THEN <<44>> \o NumText(k.pl) ELSE <<>>))
List(k, at, bad) == Concat([i \in 1..k |-> (IF i = 1 THEN <<>> ELSE <<59>>) \o (IF i = at THEN bad ELSE TextOf(i))])
Decl1(k) == [i \in 1..k |-> DeclOf(i)]
Blank(k) == [i \in 1..k |-> IF i % 4 = 0 THEN 9 ELSE IF i % 7 = 0 THEN 10 ELSE IF i % 11 = 0 THEN 13 ELSE 32]
LongName(k) == [i \in 1..k |-> IF i > 1 /\ i % 5 = 0 THEN 48 + (i % 10) ELSE IF i % 7 = 0 THEN 95 ELSE IF i % 2 = 0 THEN 65 + (i % 26) ELSE 97 + (i % 26)]
Yes(b, ks) == [b |-> b, st |-> "ok", kws |-> ks]
No(b) == [b |-> b, st |-> "err", kws |-> <<>>]
Make(f, k) ==
  CASE f = "many" -> Yes(List(k, 0, <<>>), Decl1(k))
    [] f = "same" -> Yes(Concat([i \in 1..k |-> IF i = 1 THEN Bs("T:1") ELSE Bs(";T:1")]), [i \in 1..k |-> Kw(Bs("T"), 0, 1, 0)])
    [] f = "name" -> Yes(LongName(k) \o Bs(":3c,1"), <<Kw(LongName(k), 3, 1, 0)>>)
    [] f = "blanks" -> Yes(Blank(k) \o Bs("T") \o Blank(k) \o Bs(":") \o Blank(k) \o Bs("1c") \o Blank(k) \o Bs(",") \o Blank(k) \o Bs("2") \o Blank(k) \o Bs(",")
                           \o Blank(k) \o Bs("3") \o Blank(k) \o Bs(";") \o Blank(k) \o Bs("gettext") \o Blank(k),
                           <<Kw(Bs("T"), 1, 2, 3), Kw(Bs("gettext"), 0, 1, 0)>>)
    [] f = "lastbad" -> No(List(k, k, Bs("X:1c")))
    [] f = "firstbad" -> No(List(k, 1, Bs("N:,2")))
    [] f = "midbad" -> No(List(k, (k + 1) \div 2, Bs("N:1:2")))
    [] f = "trailing" -> No(List(k, 0, <<>>) \o <<59>>)
    [] f = "leading" -> No(<<59>> \o List(k, 0, <<>>))
    [] f = "hole" -> No(List(k, 0, <<>>) \o <<59>> \o Blank(k) \o <<59>> \o Bs("T"))
    [] f = "positions" -> IF k < 3 THEN No(Bs("T:")) ELSE No(Bs("T:1c") \o Concat([i \in 1..k |-> <<44>> \o NumText(i)]))
    [] f = "colons" -> No(Bs("T") \o Concat([i \in 1..(k + 1) |-> Bs(":1")]))
    [] f = "letters" -> No(Bs("T:") \o LongName(k))
    [] f = "marks" -> No(Bs("X:1") \o [i \in 1..(k + 1) |-> 99] \o Bs(",2"))
    [] f = "nobytes" -> No(Blank(k))
Families == {"many", "same", "name", "blanks", "lastbad", "firstbad", "midbad", "trailing", "leading", "hole", "positions", "colons", "letters", "marks", "nobytes"}
Emit == LET m == TLCEval(Make(fam', d'))
        IN CSVWrite("%1$s", <<ToJson([k |-> "kw", src |-> m.b, st |-> m.st, kws |-> m.kws])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Depths
AsRead == (fam # "start" /\ d <= ReadUpTo) =>
            LET m == TLCEval(Make(fam, d))
                r == TLCEval(Decls(m.b))
            IN r.st = m.st /\ r.kws = m.kws
=============================================================================
