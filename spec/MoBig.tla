------------------------------- MODULE MoBig -------------------------------
(* C12: files that grow with d: strings, contexts, forms, long texts; in both    *)
(* byte orders, several layouts, with and without gaps.                          *)
EXTENDS Mo, Json, CSV, IOUtils
CONSTANTS Families, Depths, Widths, ReadUpTo
VARIABLES fam, d, be, lay
vars == <<fam, d, be, lay>>

E(c, id, pl, id2, s, n) == [c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Msg(c, id, s) == E(c, id, FALSE, <<>>, s, <<>>)
Hd == Msg(<<>>, <<>>, Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n"))
RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Fillup(k, b) == [i \in 1..k |-> b]
Mixed(k) == [i \in 1..k |-> IF i % 9 = 0 THEN 32 ELSE IF i % 13 = 0 THEN 10 ELSE 97 + (i % 26)]
MsgNo(i) == Bs("m") \o NumText(i)
Make(f, k) ==
  CASE f = "many" -> <<Hd>> \o [i \in 1..k |-> Msg(<<>>, MsgNo(i), Bs("t") \o NumText(i))]
    [] f = "contexts" -> [i \in 1..k |-> Msg(NumText(i), Bs("m"), NumText(k - i))] \o <<Msg(<<>>, Bs("m"), Bs("t"))>>
    [] f = "plurals" -> [i \in 1..k |-> E(IF i % 3 = 0 THEN Bs("c") ELSE <<>>, MsgNo(i), TRUE, MsgNo(i + 1), <<>>, [j \in 1..(1 + (i % 4)) |-> Bs("t") \o NumText(i + j)])] \o <<Hd>>
    [] f = "mixed" -> [i \in 1..k |-> IF i % 2 = 0 THEN Msg(IF i % 4 = 0 THEN Bs("c") ELSE <<>>, MsgNo(i), Fillup(i % 7, 98))
                                      ELSE E(<<>>, MsgNo(i), TRUE, Bs("s"), <<>>, <<Fillup(i % 5, 97), <<>>, Bs("z")>>)]
    [] f = "untranslated" -> [i \in 1..k |-> Msg(<<>>, MsgNo(i), <<>>)] \o <<Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "forms" -> <<E(<<>>, Bs("p"), TRUE, Bs("ps"), <<>>, [i \in 1..k |-> MsgNo(i)]), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "empty forms" -> <<E(<<>>, Bs("p"), TRUE, <<>>, <<>>, [i \in 1..(k + 1) |-> <<>>]), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "prefixes" -> [i \in 1..k |-> Msg(<<>>, Fillup(i, 97), NumText(i))]
    [] f = "wide id" -> <<Hd, Msg(<<>>, Mixed(k), Bs("x")), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "wide context" -> <<Msg(Mixed(k), Bs("a"), Bs("x")), Msg(Mixed(k) \o <<65>>, Bs("a"), Bs("y")), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "wide translation" -> <<Msg(<<>>, Bs("a"), Mixed(k)), E(<<>>, Bs("p"), TRUE, Mixed(k), <<>>, <<Mixed(k), Bs("x"), Fillup(k, 255)>>), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "wide header" -> <<Msg(<<>>, <<>>, Bs("X-Long: ") \o Fillup(k, 120) \o Bs("\nLanguage: de\n")), Msg(<<>>, Bs("z"), Bs("last"))>>
    [] f = "header lines" -> <<Msg(<<>>, <<>>, Concat([i \in 1..k |-> Bs("X: ") \o NumText(i) \o <<10>>]) \o Bs("Language: de\n")), Msg(<<>>, Bs("z"), Bs("last"))>>
Wide(f) == f \in {"wide id", "wide context", "wide translation", "wide header"}
Lays == <<[o |-> <<"O", "T", "I", "S">>, p |-> 0], [o |-> <<"S", "I", "T", "O">>, p |-> 1], [o |-> <<"H", "T", "S", "O", "I">>, p |-> 3]>>
File == WriteMo(Make(fam', d'), be', Lays[lay'].o, Lays[lay'].p)
Emit == CSVWrite("%1$s", <<ToJson([k |-> "mo", file |-> File, st |-> "ok", ents |-> Make(fam', d')])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0 /\ be = FALSE /\ lay = 1
Next == fam = "start" /\ fam' \in Families /\ d' \in (IF Wide(fam') THEN Widths ELSE Depths) /\ be' \in BOOLEAN /\ lay' \in 1..Len(Lays)
(* what is written is what the specified reader reads *)
AsRead == (fam # "start" /\ d <= ReadUpTo) => LET r == TLCEval(ParseMo(WriteMo(Make(fam, d), be, Lays[lay].o, Lays[lay].p)))
                                              IN r.st = "ok" /\ r.ents = Make(fam, d)
=============================================================================
