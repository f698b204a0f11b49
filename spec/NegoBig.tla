------------------------------ MODULE NegoBig ------------------------------
(* C16: requests that grow with d: elements before and after the one that is      *)
(* answered, blanks, empty elements, cookies, supported languages.                *)
EXTENDS Lang, Json, CSV, IOUtils
CONSTANTS Families, Depths
VARIABLES fam, d
vars == <<fam, d>>

RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Fillup(k, b) == [i \in 1..k |-> b]
Joined(s, sep) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, s[1], SubSeq(s, 2, Len(s)))
List(s) == Joined(s, <<44>>)
Foreign == <<Bs("ru"), Bs("he"), Bs("el"), Bs("hi"), Bs("ko"), Bs("ar")>>
For(i) == Foreign[1 + (i % Len(Foreign))]
Q3(n) == Bs(";q=0.") \o <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Cats1 == <<Bs("de_DE"), Bs("fr_FR"), Bs("pt_BR")>>
Full == <<Bs("de_DE"), Bs("es_ES"), Bs("fi_FI"), Bs("fr_FR"), Bs("it_IT"), Bs("ja_JP"), Bs("pl_PL"), Bs("pt_BR"), Bs("tr_TR"), Bs("zh_CN")>>
Req(cats, h, cookies, cookie, nohdr) == [cats |-> cats, header |-> h, cookies |-> cookies, cookie |-> cookie, nohdr |-> nohdr]
Head1(cats, h) == Req(cats, h, <<>>, Bs("lang"), FALSE)
Pair(n, v) == <<n, v>>

Make(f, k) ==
  CASE f = "foreign first" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("fr") ELSE For(i)]))
    [] f = "foreign only" -> Head1(Cats1, List([i \in 1..k |-> For(i)]))
    [] f = "foreign after" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i = 1 THEN Bs("fr") ELSE For(i)]))
    [] f = "rising" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("pt;q=1") ELSE For(i) \o Q3(i % 1000)]))
    [] f = "falling" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("pt;q=0.001") ELSE For(i) \o Q3(999 - (i % 998))]))
    [] f = "close weights" -> Head1(Cats1, List([i \in 1..(k + 2) |-> IF i = k + 1 THEN Bs("fr;q=0.501") ELSE IF i = k + 2 THEN Bs("de;q=0.502") ELSE For(i) \o Bs(";q=0.5")]))
    [] f = "refused" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("de;q=0.1") ELSE IF i % 2 = 0 THEN Bs("fr;q=0") ELSE Bs("pt;q=0.0")]))
    [] f = "stars" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("fr;q=0.1") ELSE Bs("*;q=0.5")]))
    [] f = "empty elements" -> Head1(Cats1, Fillup(k, 44) \o Bs("fr") \o Fillup(k, 44))
    [] f = "blanks" -> Head1(Cats1, Fillup(k, 32) \o Bs("ru") \o Fillup(k, 32) \o <<44>> \o Fillup(k, 32) \o Bs("fr") \o Fillup(k, 32) \o <<59>> \o Fillup(k, 32) \o Bs("q=0.5"))
    [] f = "malformed last" -> Head1(Cats1, List([i \in 1..(k + 1) |-> IF i > k THEN Bs("e n") ELSE Bs("fr")]))
    [] f = "malformed" -> Head1(Cats1, List([i \in 1..(2 * k + 1) |-> IF i = k + 1 THEN Bs("/") ELSE Bs("de")]))
    [] f = "no header" -> Req(SubSeq(Full, 1, IF k > Len(Full) THEN Len(Full) ELSE k), <<>>, <<>>, Bs("lang"), TRUE)
    [] f = "supported" -> Head1(SubSeq(Full, 1, IF k > Len(Full) THEN Len(Full) ELSE k), Bs("zh-cn,tr,pt-BR;q=0.9,pl;q=0.8,ja;q=0.7,it;q=0.6,fr;q=0.5,fi;q=0.4,es;q=0.3,de;q=0.2"))
    [] f = "supported one" -> Head1(Full, Full[1 + (k % Len(Full))])
    [] f = "cookies before" -> Req(Cats1, Bs("fr"), [i \in 1..(k + 1) |-> IF i > k THEN Pair(Bs("lang"), Bs("de_DE")) ELSE Pair(Bs("c") \o NumText(i), Bs("fr_FR"))], Bs("lang"), FALSE)
    [] f = "cookies after" -> Req(Cats1, Bs("fr"), [i \in 1..(k + 1) |-> IF i = 1 THEN Pair(Bs("lang"), Bs("de_DE")) ELSE Pair(Bs("lang"), Bs("pt_BR"))], Bs("lang"), FALSE)
    [] f = "cookies other" -> Req(Cats1, Bs("fr"), [i \in 1..k |-> Pair(Bs("lang") \o NumText(i), Bs("de_DE"))], Bs("lang"), FALSE)
    [] f = "cookie name" -> Req(Cats1, Bs("fr"), << Pair(Fillup(k, 108), Bs("pt_BR")), Pair(Fillup(k + 1, 108), Bs("de_DE")) >>, Fillup(k + 1, 108), FALSE)
    [] f = "cookie value" -> Req(Cats1, Bs("fr"), << Pair(Bs("lang"), Fillup(k, 120)) >>, Bs("lang"), FALSE)

Emit == LET r == TLCEval(Make(fam', d'))
            src == Bs("en_US")
            sup == TLCEval(SetToSortSeq({src} \cup ElemsOf(r.cats), LexLt))
        IN CSVWrite("%1$s", <<ToJson([k |-> "nego", src |-> src, cats |-> r.cats, sup |-> sup, header |-> r.header, cookies |-> r.cookies, cookie |-> r.cookie,
                                      want |-> SetToSeq(Answers(sup, r.header, r.cookies, r.cookie)), nohdr |-> r.nohdr])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Depths
(* what stands around the element that counts does not matter *)
Decided == LET r == Make(fam, d)
               a == Answers(SetToSortSeq({Bs("en_US")} \cup ElemsOf(r.cats), LexLt), r.header, r.cookies, r.cookie)
           IN fam # "start" =>
              /\ fam \in {"foreign first", "foreign after", "stars", "empty elements", "blanks", "cookies other"} => a = {Bs("fr_FR")}
              /\ fam \in {"rising", "falling"} => a = {Bs("pt_BR")}
              /\ fam \in {"close weights", "refused", "cookies before", "cookies after", "cookie name"} => a = {Bs("de_DE")}
              /\ fam \in {"malformed", "malformed last"} => Cardinality(a) = 1
              /\ a # {}
=============================================================================
