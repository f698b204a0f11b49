------------------------------- MODULE Worlds -------------------------------
(* The catalogs the generated histories load, what is looked up in them, and   *)
(* everything that must be observable on an instance.                          *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANTS Srcs,         \* names of the sources used
          Sys,          \* the system language
          Asked         \* "few" or "many" lookups per instance

LocaleOf(sp) == IF sp = "" THEN Sys ELSE IF sp = None THEN None ELSE NormOf(sp)
(* sources: files with language spelling, rule and entries                     *)
Tx(a, b) == a \o "." \o b
E(c, id, id2, t, n) == [c |-> c, id |-> id, id2 |-> id2, s |-> t, n |-> n]
Full(p) == << E("", "m", "", Tx(p, "m"), <<>>), E("k", "m", "", Tx(p, "km"), <<>>),
              E("", "p", "ps", "", <<Tx(p, "p0"), Tx(p, "p1"), Tx(p, "p2")>>),
              E("k", "p", "ps", "", <<Tx(p, "kp0"), "">>), E(" ", "m", "", Tx(p, "bm"), <<>>) >>
Part(p) == << E("", "m", "", Tx(p, "m"), <<>>), E("", "p", "ps", "", <<Tx(p, "p0"), Tx(p, "p1")>>),
              E("", "q", "", Tx(p, "q"), <<>>) >>
Only(p) == << E("k", "m", "", Tx(p, "km"), <<>>), E("", "s", "", Tx(p, "s"), <<>>),
              E("", "p", "", Tx(p, "pm"), <<>>) >>
F(lang, rule, ents) == [lang |-> lang, rule |-> rule, ents |-> ents]
Files(x) ==
  CASE x = "A" -> << F("zh-Hans", "ne1", Full("Azh")), F("fr_FR", "mod3", Full("Afr")) >>
    [] x = "B" -> << F("zh_CN", "one", Part("Bzh")) >>
    [] x = "C" -> << F("en_US", "ne1", Part("Cen")), F("zh", "none", Full("Czh")) >>
    [] x = "D" -> << F("fr", "mod4", Only("Dfr")), F("ja", "bad", Full("Dja")), F("pt_BR", "ne1", Only("Dpt")) >>
    [] x = "U" -> << F("", "ne1", Part("U")) >>      \* states no language
    [] x = "N" -> <<>>                                \* nothing loadable
Cont(x) == LET fs == SelectSeq(Files(x), LAMBDA f : f.lang # "")
           IN [k \in 1..Len(fs) |-> <<NormOf(fs[k].lang), MkCat(fs[k])>>]
Source(x) == [ok |-> x # "N", cont |-> Cont(x)]

(* what is looked up: function, context, message, plural, count, argument      *)
PH(c, id, id2, hi, n, arg) == [c |-> c, id |-> id, id2 |-> id2, hi |-> hi, n |-> n, arg |-> arg]
P(c, id, id2, n, arg) == PH(c, id, id2, 0, n, arg)
ProbesFew == << P("", "m", "", 1, "a"), P("k", "m", "", 2, ""), P("", "p", "ps", 1, "b"), P("", "p", "ps", 2, ""),
             P("", "p", "ps", 5, "c"), P("k", "p", "ps", 1, ""), P("k", "p", "ps", 0, "d"), P("", "p", "", 3, ""),
             P("", "q", "qs", 1, ""), P("", "q", "qs", 7, "e"), P("k", "q", "", 1, ""), P("m", "k", "ks", 1, ""),
             P("", "s", "ss", 0, "f"), P(" ", "m", "", 0, ""), P("k ", "m", "ms", -1, "g"), P("K", "m", "ms", 1, ""),
             P("", "", "", 1, ""), P("", "", "es", 4, ""), P("k", "", "es", 4, ""), P("", "p", "ps", -1, ""), P("", "p", "ps", -3, "h"),
             P("", " m", "", 2, ""), P("", "M", "Ms", -2, ""),
             PH("", "p", "ps", 1, 1, ""), PH("k", "p", "ps", -1, -1, "i") >>
(* every combination of context, message, plural text and count                *)
Counts == { <<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, -1>>, <<0, 5>>, <<1, 0>>, <<1, 1>>, <<2, 1>>, <<-1, -1>>, <<1073741824, 2>>, <<0, 1000001>> }
ProbesMany == ProbesFew \o SetToSeq({PH(c, id, id2, n[1], n[2], "") : c \in {"", "k"}, id \in {"m", "p", "q"}, id2 \in {"", "ps"}, n \in Counts})
Probes == IF Asked = "many" THEN ProbesMany ELSE ProbesFew
AllDoms == <<"", "d", "default", "e", "x">>
DefsOnce == CSVWrite("%1$s", <<ToJson([k |-> "defs", probes |-> Probes, doms |-> AllDoms,
                 srcs |-> [x \in Srcs |-> [k \in 1..Len(Files(x)) |->
                    [lang |-> Files(x)[k].lang, hdr |-> RuleText(Files(x)[k].rule), ents |-> Files(x)[k].ents]]]])>>, IOEnv.DEFS)

Obs(t) == [loc |-> t.loc, dom |-> t.dom, src |-> t.src,
           has |-> [k \in 1..Len(AllDoms) |-> HasDom(t, AllDoms[k])],
           locs |-> SelectSeq(Order, LAMBDA l : l \in LangSet(t)),
           used |-> Used(t),
           x  |-> [k \in 1..Len(Probes) |-> LET p == Probes[k] IN AnsX(t, p.c, p.id, p.arg)],
           xn |-> [k \in 1..Len(Probes) |-> LET p == Probes[k] IN AnsXN(t, p.c, p.id, p.id2, <<p.hi, p.n>>, p.arg)]]
=============================================================================
