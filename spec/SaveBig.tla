------------------------------ MODULE SaveBig ------------------------------
(* C09-C11: catalogs to save that grow with d: entries, forms, comments, lines,   *)
(* texts of every width around what fits on a line, escapes, replacements.        *)
EXTENDS Save, Json, CSV, IOUtils
CONSTANTS Families, Depths, Widths, What
VARIABLES fam, d
vars == <<fam, d>>

Ent(cm, c, id, pl, id2, s, n) == [cm |-> cm, c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Msg(cm, c, id, s) == Ent(cm, c, id, FALSE, <<>>, s, <<>>)
Hd == Msg(<<Bs("# head")>>, <<>>, <<>>, Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n"))
Z == Msg(<<Bs("#: z.go:1")>>, <<>>, Bs("z"), Bs("last"))
RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Fillup(k, b) == [i \in 1..k |-> b]
Every(G(_), k) == Concat([i \in 1..k |-> G(i)])
Letters(k) == [i \in 1..k |-> 97 + (i % 26)]
Words(k, w) == [i \in 1..k |-> IF i % w = 0 THEN 32 ELSE 97 + (i % 26)]
MsgNo(i) == Bs("m") \o NumText(i)
At1(f, i) == <<Bs("#: ") \o Bs(f) \o <<58>> \o NumText(i)>>
Abc(k) == Letters(k)
Wide(k) == Every(LAMBDA i : <<228, 184, 128 + (i % 60)>>, k \div 3)
Text(f, k) == CASE f = "letters" -> Abc(k) [] f = "words" -> Words(k, 7) [] f = "words long" -> Words(k, 31) [] f = "runes" -> Wide(k)
                [] f = "quotes" -> Fillup(k, 34) [] f = "slashes" -> Fillup(k, 92) [] f = "newlines" -> Fillup(k, 10) [] f = "tabs" -> Fillup(k, 9)
                [] f = "blanks" -> Fillup(k, 32) [] f = "last newline" -> Abc(k) \o <<10>> [] f = "last blank" -> Abc(k) \o <<32>>
                [] f = "last quote" -> Abc(k) \o <<34>> [] f = "last slash" -> Abc(k) \o <<92>> [] f = "control" -> [i \in 1..k |-> 1 + (i % 3) + IF i % 5 = 0 THEN 125 ELSE 4]
                [] f = "newline inside" -> Abc(k) \o <<10>> \o Abc(k) [] f = "first newline" -> <<10>> \o Abc(k) [] f = "hex" -> Every(LAMBDA i : <<1, 48 + (i % 10)>>, k \div 2)
Texts == {"letters", "words", "words long", "runes", "quotes", "slashes", "newlines", "tabs", "blanks", "last newline", "last blank", "last quote", "last slash",
          "control", "newline inside", "first newline", "hex"}

Make(f, k) ==
  CASE f \in Texts -> LET t == TLCEval(Text(f, k))
                      IN << Hd, Msg(<<>>, t, Bs("k"), t \o <<46>>), Ent(<<>>, <<>>, Bs("p") \o t, TRUE, t, <<>>, <<t, Bs("1")>>), Z >>
    [] f = "many" -> <<Hd>> \o [i \in 1..k |-> Msg(At1("f.go", k + 1 - i), <<>>, MsgNo(i), Bs("t") \o NumText(i))]
    [] f = "same place" -> [i \in 1..k |-> Msg(At1("f.go", 1), IF i % 2 = 0 THEN <<>> ELSE Bs("c"), Fillup(1 + (i \div 2), 97), Bs("t") \o NumText(i))]
    [] f = "numbers" -> [i \in 1..k |-> Msg(At1(IF i % 2 = 0 THEN "f.go" ELSE "g.go", ((i * 7) % 31) * 50), <<>>, MsgNo(i), <<>>)]
    [] f = "untranslated" -> [i \in 1..k |-> IF i % 2 = 0 THEN Msg(<<>>, <<>>, MsgNo(i), <<>>) ELSE Ent(<<>>, <<>>, MsgNo(i), TRUE, MsgNo(i), <<>>, <<>>)] \o <<Hd>>
    [] f = "forms" -> << Hd, Ent(<<>>, Bs("c"), Bs("p"), TRUE, Bs("ps"), <<>>, [i \in 1..k |-> MsgNo(i)]), Z >>
    [] f = "empty forms" -> << Hd, Ent(<<>>, Bs("c"), Bs("p"), TRUE, Bs("ps"), <<>>, [i \in 1..k |-> IF i = k THEN Bs("x") ELSE <<>>]), Z >>
    [] f = "comments" -> << Hd, Msg([i \in 1..k |-> Bs("# no ") \o NumText(i)], <<>>, Bs("a"), Bs("A")), Z >>
    [] f = "places" -> << Hd, Msg([i \in 1..k |-> Bs("#: a.go:") \o NumText(i * 3)], <<>>, Bs("a"), Bs("A")), Z >>
    [] f = "wide comment" -> << Hd, Msg(<<Bs("#. ") \o Words(k, 7), Bs("#, fuzzy-not")>>, <<>>, Bs("a"), Bs("A")), Z >>
    [] f = "one line of places" -> << Hd, Msg(<<Bs("#:") \o Every(LAMBDA i : Bs(" a.go:") \o NumText(i * 3), k)>>, <<>>, Bs("a"), Bs("A")), Z >>
    [] f = "again" -> [i \in 1..k |-> Msg(At1("f.go", i), <<>>, IF i % 2 = 0 THEN Bs("a") ELSE Bs("b"), NumText(i))] \o <<Hd>>
    [] f = "heads" -> [i \in 1..k |-> Msg(<<>>, <<>>, <<>>, Bs("Language: l") \o NumText(i) \o <<10>>)] \o <<Z>>
    [] f = "head lines" -> << Msg(<<>>, <<>>, <<>>, Every(LAMBDA i : Bs("X-") \o NumText(i) \o Bs(": v\n"), k)), Z >>
    [] f = "contexts" -> [i \in 1..k |-> Msg(<<>>, Fillup(i - 1, 99), Bs("m"), NumText(i))]

Dims(f) == IF f \in Texts \cup {"wide comment"} THEN Widths ELSE Depths
Emit == CSVWrite("%1$s", <<ToJson([k |-> "save", adds |-> Make(fam', d')])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Dims(fam')
(* written plainly they read back *)
PlainAccepted == (fam # "start" /\ d <= 20) =>
  LET ct == CatOf(Make(fam, d))
      r == TLCEval(ParsePo(PlainPo(ct), TRUE))
  IN r.st = "ok" /\ SameElems(Evened(r.ents, ct), Evened(ct, ct)) /\ IdLines(PlainPo(ct)) = Len(ct)
=============================================================================
