------------------------------- MODULE PoBig -------------------------------
(* C08: families of PO texts that grow with d: entries, fragments, forms,      *)
(* comments, blank lines, long lines, duplicates, and one bad line behind.      *)
(* The entries a text states are known from its construction; the invariant      *)
(* ties them to the specified reader up to ReadUpTo.                             *)
EXTENDS Po, Json, CSV, IOUtils
CONSTANTS Depths, Widths, ReadUpTo
VARIABLES fam, d
vars == <<fam, d>>

RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<48 + k>> ELSE Append(DigitsOf(k \div 10), 48 + (k % 10))
AnEnt(cm, c, id, pl, id2, s, n) == [cm |-> cm, c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
PlainEnt(id, s) == AnEnt(<<>>, <<>>, id, FALSE, <<>>, s, <<>>)
EndLine(b) == Append(b, 10)
Cat(ss) == Concat(ss)
Upto(k) == [i \in 1..k |-> i]
Each(F(_), k) == Concat([i \in 1..k |-> F(i)])
Quoted(b) == <<34>> \o b \o <<34>>
KwLine(w, b) == EndLine(Bs(w) \o <<32>> \o Quoted(b))
FormLine(i, b) == EndLine(Bs("msgstr[") \o DigitsOf(i) \o Bs("] ") \o Quoted(b))
Plain3(i) == Bs("p") \o DigitsOf(i)
Filler(k) == [i \in 1..k |-> IF i % 9 = 0 THEN 32 ELSE IF i % 11 = 0 THEN 35 ELSE 97 + (i % 26)]
Spaces(k) == [i \in 1..k |-> IF i % 4 = 0 THEN 9 ELSE 32]
Newlines(k) == [i \in 1..k |-> 10]

(* [text, po, pot]: entries kept by a catalog and by a template; err *)
Reads(text, po, pot) == [text |-> text, po |-> [st |-> "ok", ents |-> po], pot |-> [st |-> "ok", ents |-> pot]]
BadText(text) == [text |-> text, po |-> [st |-> "err", ents |-> <<>>], pot |-> [st |-> "err", ents |-> <<>>]]
Both(text, es) == Reads(text, es, es)
LastOne == KwLine("msgid", Bs("z")) \o KwLine("msgstr", Bs("end"))
TailEnt == PlainEnt(Bs("z"), Bs("end"))
Frags(k) == Each(LAMBDA i : EndLine(Quoted(Plain3(i))), k)
Whole(k) == Each(Plain3, k)

Make(f, k) ==
  CASE f = "forms" -> Both(KwLine("msgid", Bs("a")) \o KwLine("msgid_plural", Bs("b")) \o Each(LAMBDA i : FormLine(i - 1, Plain3(i)), k) \o EndLine(<<>>) \o LastOne,
                           <<AnEnt(<<>>, <<>>, Bs("a"), TRUE, Bs("b"), <<>>, [i \in 1..k |-> Plain3(i)]), TailEnt>>)
    [] f = "frags" -> LET es == <<AnEnt(<<>>, Whole(k), Bs("i") \o Whole(k), TRUE, Whole(k) \o Whole(k), <<>>, <<Whole(k), Bs("x") \o Whole(k)>>), TailEnt>>
                      IN Both(KwLine("msgctxt", <<>>) \o Frags(k) \o KwLine("msgid", Bs("i")) \o Frags(k) \o KwLine("msgid_plural", <<>>) \o Frags(k) \o Frags(k)
                              \o FormLine(0, <<>>) \o Frags(k) \o FormLine(1, Bs("x")) \o Frags(k) \o EndLine(<<>>) \o LastOne, es)
    [] f = "bare" -> Both(EndLine(Bs("msgid")) \o Frags(k) \o EndLine(Bs("msgstr")) \o Frags(k) \o LastOne, <<PlainEnt(Whole(k), Whole(k)), TailEnt>>)
    [] f = "cmts" -> LET cm(i) == IF i % 4 = 0 THEN Bs("#") ELSE IF i % 4 = 1 THEN Bs("#: f.go:") \o DigitsOf(i) ELSE IF i % 4 = 2 THEN Bs("#, fuzzy")
                                  ELSE Bs("# c")
                         e == AnEnt([i \in 1..k |-> cm(i)], <<>>, Bs("a"), FALSE, <<>>, Bs("x"), <<>>)
                     IN Both(Each(LAMBDA i : EndLine(cm(i)), k) \o KwLine("msgid", Bs("a")) \o KwLine("msgstr", Bs("x")) \o EndLine(cm(k)) \o LastOne,
                             <<e, [TailEnt EXCEPT !.cm = <<cm(k)>>]>>)
    [] f = "blanks" -> Both(Newlines(k) \o KwLine("msgid", Bs("a")) \o Newlines(k) \o KwLine("msgid_plural", Bs("b")) \o Newlines(k) \o FormLine(0, Bs("x")) \o Newlines(k)
                            \o FormLine(1, Bs("y")) \o Newlines(k) \o EndLine(Quoted(Bs("more"))) \o Newlines(k) \o LastOne,
                            <<AnEnt(<<>>, <<>>, Bs("a"), TRUE, Bs("b"), <<>>, <<Bs("x"), Bs("ymore")>>), TailEnt>>)
    [] f = "indent" -> Both(Spaces(k) \o Bs("msgid") \o Spaces(k) \o Quoted(Bs("a")) \o EndLine(Spaces(k)) \o Spaces(k) \o EndLine(Quoted(Bs("b")))
                            \o Bs("msgstr") \o Spaces(k) \o Quoted(Bs("x")) \o EndLine(Spaces(k)) \o LastOne, <<PlainEnt(Bs("ab"), Bs("x")), TailEnt>>)
    [] f = "wide" -> LET es == <<AnEnt(<<Bs("# ") \o Filler(k)>>, Filler(k), Bs("k") \o Filler(k), FALSE, <<>>, Filler(k) \o Bs("!"), <<>>), TailEnt>>
                     IN Both(EndLine(Bs("# ") \o Filler(k)) \o KwLine("msgctxt", Filler(k)) \o KwLine("msgid", Bs("k") \o Filler(k)) \o KwLine("msgstr", Filler(k) \o Bs("!")) \o LastOne, es)
    [] f = "escapes" -> LET esc(i) == IF i % 4 = 0 THEN Bs("\\n") ELSE IF i % 4 = 1 THEN Bs("\\\"") ELSE IF i % 4 = 2 THEN Bs("\\303\\251") ELSE Bs("\\\\")
                            val(i) == IF i % 4 = 0 THEN <<10>> ELSE IF i % 4 = 1 THEN <<34>> ELSE IF i % 4 = 2 THEN <<195, 169>> ELSE <<92>>
                        IN Both(KwLine("msgid", Each(esc, k)) \o KwLine("msgstr", Each(LAMBDA i : esc(i + 1), k)) \o LastOne,
                                <<PlainEnt(Each(val, k), Each(LAMBDA i : val(i + 1), k)), TailEnt>>)
    [] f = "entries" -> LET e(i) == IF i % 3 = 0 THEN AnEnt(<<>>, Bs("c"), Plain3(i), FALSE, <<>>, <<>>, <<>>) ELSE PlainEnt(Plain3(i), Plain3(i + 7))
                            t(i) == (IF i % 3 = 0 THEN KwLine("msgctxt", Bs("c")) ELSE <<>>) \o KwLine("msgid", Plain3(i))
                                    \o KwLine("msgstr", IF i % 3 = 0 THEN <<>> ELSE Plain3(i + 7)) \o (IF i % 2 = 0 THEN EndLine(<<>>) ELSE <<>>)
                        IN Reads(Each(t, k) \o LastOne, SelectSeq([i \in 1..k |-> e(i)], LAMBDA x : x.s # <<>>) \o <<TailEnt>>, [i \in 1..k |-> e(i)] \o <<TailEnt>>)
    [] f = "again" -> Both(LastOne \o Each(LAMBDA i : KwLine("msgid", Bs("a")) \o KwLine("msgstr", Plain3(i)), k), <<TailEnt, PlainEnt(Bs("a"), Plain3(k))>>)
    [] f = "broken" -> BadText(Each(LAMBDA i : KwLine("msgid", Plain3(i)) \o KwLine("msgstr", Bs("x")), k) \o EndLine(Bs("garbage")) \o LastOne)
    [] f = "unquoted" -> BadText(KwLine("msgid", Bs("a")) \o KwLine("msgstr", Bs("x")) \o Frags(k) \o EndLine(<<34>> \o Filler(k)) \o LastOne)
    [] f = "badesc" -> BadText(KwLine("msgid", Bs("a")) \o KwLine("msgstr", Filler(k) \o Bs("\\q") \o Filler(k)) \o LastOne)
    [] f = "nothing" -> Reads(Newlines(k) \o Each(LAMBDA i : EndLine(Bs("# c")), k), <<>>, <<>>)
Families == {"forms", "frags", "bare", "cmts", "blanks", "indent", "wide", "escapes", "entries", "again", "broken", "unquoted", "badesc", "nothing"}
Dims(f) == CASE f \in {"wide", "badesc", "indent", "escapes"} -> Widths
             [] f = "forms" -> {x \in Depths : x < 100}
             [] OTHER -> Depths
Emit == LET m == TLCEval(Make(fam', d'))
        IN CSVWrite("%1$s", <<ToJson([k |-> "po", text |-> m.text, po |-> m.po, pot |-> m.pot])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Dims(fam')
AsRead == (fam # "start" /\ d <= ReadUpTo) =>
            LET m == TLCEval(Make(fam, d))
                a == TLCEval(ParsePo(m.text, FALSE))
                b == TLCEval(ParsePo(m.text, TRUE))
            IN /\ a.st = m.po.st /\ a.ents = m.po.ents
               /\ b.st = m.pot.st /\ b.ents = m.pot.ents
=============================================================================
