------------------------------ MODULE NegoGen ------------------------------
(* C16: supported languages, requests and what may be answered.                *)
(*   "header": one source language and a set of catalogs, an Accept-Language   *)
(*             header of up to MaxLen elements, with or without cookies          *)
(*   "match":  a supported and a wanted list, in any order                       *)
EXTENDS Lang, Json, CSV, IOUtils
CONSTANTS Mode, MaxCats, MaxLen
VARIABLES src, cats, els, cookies, cookie, step
vars == <<src, cats, els, cookies, cookie, step>>

Sources == {Bs("en_US"), Bs("zh_CN"), Bs("fr_FR")}
Catalogs == {Bs("fr_FR"), Bs("fr_CA"), Bs("zh_CN"), Bs("zh_TW"), Bs("zh_HK"), Bs("pt_BR"), Bs("pt_PT"), Bs("en_GB"), Bs("de_DE"), Bs("ar_EG")}
Tags == {Bs("fr"), Bs("fr-CH"), Bs("zh-Hant"), Bs("zh-cn"), Bs("pt-PT"), Bs("en-GB"), Bs("de"), Bs("ru"), Bs("he"), Bs("*")}
Weights == {<<>>, Bs(";q=0.9"), Bs("; q=0.85"), Bs(";q=0"), Bs(";q=1.0")}
Odd == {<<>>, Bs("fr;q=x"), Bs("e n"), Bs("/"), Bs("fr=1"), Bs("\"de\""), Bs("english"), Bs(";q=1"), Bs("fr;q=0.333;x=y")}
Elements == {t \o w : t \in Tags, w \in Weights}
Cookies == { <<>>, << <<Bs("lang"), Bs("zh_TW")>> >>, << <<Bs("lang"), Bs("xx")>>, <<Bs("lang"), Bs("fr_FR")>> >>, << <<Bs("l2"), Bs("de_DE")>> >>,
             << <<Bs("other"), Bs("x")>>, <<Bs("lang"), <<>> >> >> }
Wanted == {Bs("fr"), Bs("fr-CH"), Bs("zh-Hant"), Bs("zh_HK"), Bs("zh"), Bs("pt_PT"), Bs("en"), Bs("de-AT"), Bs("ru"), Bs("he"), Bs("es-419")}

Join44(s) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o <<44>> \o x, s[1], SubSeq(s, 2, Len(s)))
SortedSup(s, cs) == SetToSortSeq({s} \cup cs, LexLt)
Init == step = 0 /\ src = <<>> /\ cats = <<>> /\ els = <<>> /\ cookies = <<>> /\ cookie = Bs("lang")
Start == step = 0 /\ step' = 1 /\ src' \in Sources /\ UNCHANGED <<cats, els, cookies, cookie>>
AddCat == /\ step = 1 /\ Len(cats) < MaxCats
          /\ \E x \in Catalogs : /\ (IF cats = <<>> THEN TRUE ELSE LexLt(cats[Len(cats)], x))      \* as a set
                                 /\ cats' = Append(cats, x)
          /\ UNCHANGED <<src, els, cookies, cookie, step>>
Plainly == /\ step = 1 /\ step' = 2 /\ cookies' \in Cookies /\ cookie' \in {Bs("lang"), Bs("l2")}
           /\ UNCHANGED <<src, cats, els>>
AddEl == /\ step = 2 /\ Len(els) < MaxLen /\ (els = <<>> \/ (cookies = <<>> /\ cookie = Bs("lang")))
         /\ \E x \in Elements \cup Odd : els' = Append(els, x)
         /\ UNCHANGED <<src, cats, cookies, cookie, step>>
(* match: cats the supported list in any order, els the wanted one *)
AddSup == /\ step = 0 /\ Len(cats) < MaxCats /\ \E x \in Catalogs \cup {Bs("en"), Bs("zh-Hans")} : cats' = Append(cats, x)
          /\ UNCHANGED <<src, els, cookies, cookie, step>>
ToWant == /\ step = 0 /\ cats # <<>> /\ step' = 2 /\ UNCHANGED <<src, cats, els, cookies, cookie>>
AddWant == /\ step = 2 /\ Len(els) < MaxLen /\ \E x \in Wanted : els' = Append(els, x)
           /\ UNCHANGED <<src, cats, cookies, cookie, step>>
Next == IF Mode = "header" THEN Start \/ AddCat \/ Plainly \/ AddEl ELSE AddSup \/ ToWant \/ AddWant

Ids(s) == [k \in 1..Len(s) |-> Ident(s[k])[1]]
Emit == step' # 2 \/
  IF Mode = "header"
  THEN LET sup == TLCEval(SortedSup(src', ElemsOf(cats')))
           h == Join44(els')
       IN CSVWrite("%1$s", <<ToJson([k |-> "nego", src |-> src', cats |-> cats', sup |-> sup, header |-> h, cookies |-> cookies', cookie |-> cookie',
                                     want |-> SetToSeq(Answers(sup, h, cookies', cookie')), nohdr |-> els' = <<>>])>>, IOEnv.CASES)
  ELSE CSVWrite("%1$s", <<ToJson([k |-> "match", sup |-> cats', wanted |-> els', want |-> SetToSeq(Best(TLCEval(Ids(cats')), TLCEval(Ids(els'))))])>>, IOEnv.CASES)

(* properties of the specified negotiation *)
Sup == SortedSup(src, ElemsOf(cats))
Supported == (Mode = "header" /\ step = 2 /\ cookies = <<>>) =>
  LET a == Answers(Sup, Join44(els), cookies, cookie) IN a # {} /\ a \subseteq ElemsOf(Sup)
(* a supported language asked for alone is answered; a weight of zero asks for nothing *)
AskedAlone == (Mode = "header" /\ step = 2 /\ els = <<>>) =>
  \A k \in 1..Len(Sup) : Answers(Sup, Sup[k], <<>>, cookie) = {Sup[k]} /\ Answers(Sup, Sup[k] \o Bs(";q=0"), <<>>, cookie) = {Sup[1]}
=============================================================================
