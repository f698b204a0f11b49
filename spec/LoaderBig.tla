----------------------------- MODULE LoaderBig -----------------------------
(* C07: trees that grow with d: files, levels, directories, unreadable and        *)
(* unrelated ones around a few that hold catalogs, long names.                    *)
EXTENDS Loader, Json, CSV, IOUtils
CONSTANTS Families, Depths, UpTo, NameUpTo
VARIABLES fam, d
vars == <<fam, d>>

RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Langs == <<"de", "en-gb", "en", "fr-ca", "fr", "ja", "pt", "pt-pt", "ru-RU", "zh-Hans", "zh-tw">>
Lang(i) == Langs[1 + (i % Len(Langs))]
F(p, kind, lang) == [p |-> p, kind |-> kind, lang |-> lang]
Good(p, lang) == F(p, "good", lang)
Ends(i) == IF i % 2 = 0 THEN Bs(".po") ELSE Bs(".mo")
File(i) == Bs("f") \o NumText(i) \o Ends(i)
Dirs(k) == [i \in 1..k |-> Bs("d") \o NumText(i % 3)]
BadKinds == <<"bad", "empty", "swapped", "noopen", "readerr", "nostat">>
BadOne(i) == BadKinds[1 + (i % Len(BadKinds))]
Other(i) == Bs("f") \o NumText(i) \o (CASE i % 3 = 0 -> Bs(".txt") [] i % 3 = 1 -> Bs(".pot") [] OTHER -> <<>>)

Make(f, k) ==
  CASE f = "many" -> [i \in 1..k |-> Good(<<File(i)>>, Lang(i))]
    [] f = "same" -> [i \in 1..k |-> Good(<<File(i)>>, IF i % 5 = 0 THEN "fr" ELSE "zh")]
    [] f = "mos" -> [i \in 1..k |-> Good(<<Bs("f") \o NumText(i) \o (IF i = 1 THEN Bs(".po") ELSE Bs(".mo"))>>, "zh")]
    [] f = "bad around" -> [i \in 1..(2 * k + 1) |-> IF i = k + 1 THEN Good(<<File(i)>>, "ja") ELSE F(<<File(i)>>, BadOne(i), "zh")]
    [] f = "all bad" -> [i \in 1..k |-> F(<<File(i)>>, BadOne(i), "zh")]
    [] f = "bad first" -> [i \in 1..(k + 2) |-> IF i > k THEN Good(<<Bs("z") \o File(i)>>, Lang(i)) ELSE F(<<Bs("a"), File(i)>>, BadOne(i), "zh")]
    [] f = "other around" -> [i \in 1..(2 * k + 1) |-> IF i = k + 1 THEN Good(<<File(i)>>, "ja") ELSE Good(<<Other(i)>>, "zh")]
    [] f = "all other" -> [i \in 1..k |-> Good(<<Other(i)>>, "zh")]
    [] f = "stateless" -> [i \in 1..k |-> F(<<File(i)>>, IF i = (k + 1) \div 2 THEN "good" ELSE "nolang", "ru-RU")]
    [] f = "no language" -> [i \in 1..k |-> F(<<File(i)>>, "nolang", "ru-RU")]
    [] f = "deep" -> <<Good(Dirs(k) \o <<Bs("a.po")>>, "fr")>>
    [] f = "levels" -> [i \in 1..k |-> Good(Dirs(i) \o <<File(i)>>, Lang(i))]
    [] f = "levels same" -> [i \in 1..k |-> Good(Dirs(i) \o <<Bs("a.po")>>, "zh")]
    [] f = "branches" -> [i \in 1..k |-> Good(<<Bs("d") \o NumText(i), Bs("m") \o Ends(i)>>, Lang(i))]
    [] f = "branches same" -> [i \in 1..k |-> Good(<<Bs("d") \o NumText(i), Bs("messages.po")>>, "pt")]
    [] f = "long names" -> <<Good(<<[i \in 1..k |-> 97 + (i % 26)] \o Bs(".po")>>, "de"), Good(<<[i \in 1..k |-> 97 + (i % 26)], [i \in 1..k |-> 98] \o Bs(".mo")>>, "fr"),
                             Good(<<[i \in 1..k |-> 97 + (i % 26)] \o Bs(".po") \o Bs("x")>>, "ja"), Good(<<[i \in 1..k |-> 97 + (i % 26)] \o Bs("A.po")>>, "de")>>
    [] f = "dots" -> <<Good(<<Bs("a") \o [i \in 1..k |-> 46] \o Bs("po")>>, "de"), Good(<<[i \in 1..(k + 2) |-> 46] \o Bs("mo")>>, "fr")>>

Names == {"long names", "dots"}
Of(f) == {k \in Depths : CASE f \in Names -> k <= NameUpTo [] f \in {"levels", "levels same"} -> k <= 40 [] OTHER -> k <= UpTo}
Denied(f, k) == IF f = "branches" /\ k > 2 THEN <<<<Bs("d") \o NumText(k)>>, <<Bs("d1")>>>> ELSE IF f = "levels" /\ k > 3 THEN <<Dirs(k - 1)>> ELSE <<>>
Emit == LET nodes == TLCEval(Make(fam', d'))
            Case(dn) == LET r == TLCEval(Load(nodes, dn))
                  IN CSVWrite("%1$s", <<ToJson([k |-> "load", nodes |-> nodes, deny |-> dn, ok |-> r.ok, reg |-> r.reg,
                       single |-> [j \in 1..Len(nodes) |-> Load(<<[nodes[j] EXCEPT !.p = <<@[Len(@)]>>]>>, <<>>)]])>>, IOEnv.CASES)
        IN Case(<<>>) /\ (Denied(fam', d') = <<>> \/ Case(Denied(fam', d')))
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Of(fam')
WalkAgrees == fam # "start" => Agrees(Make(fam, d), <<>>) /\ Agrees(Make(fam, d), Denied(fam, d))
=============================================================================
