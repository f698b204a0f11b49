------------------------------ MODULE ChainBig ------------------------------
(* C25: the whole way for templates that grow with d: messages, contexts, nested  *)
(* constructs, pipelines, definitions, arguments, wide texts, files.              *)
EXTENDS Chain, Json, CSV, IOUtils
CONSTANTS Families, Depths, Widths, NestUpTo
VARIABLES fam, d, as
vars == <<fam, d, as>>

StrB(b) == Node("str", b, 0, <<>>)
Str(s) == StrB(Bs(s))
Const(s) == Node("const", Bs(s), 0, <<>>)
Id(s) == Node("id", Bs(s), 0, <<>>)
Fld(s) == Node("field", Bs(s), 0, <<>>)
Pipe1(os) == Node("pipe", <<>>, 0, <<Node("cmd", <<>>, 0, os)>>)
PipeN(cs) == Node("pipe", <<>>, 0, [i \in 1..Len(cs) |-> Node("cmd", <<>>, 0, cs[i])])
Paren(p) == Node("paren", <<>>, 0, <<p>>)
Act(p) == Node("act", <<>>, 0, <<p>>)
TextB(b) == Node("text", b, 0, <<>>)
List(ns) == Node("list", <<>>, 0, ns)
TB(b) == Pipe1(<<Id("T"), StrB(b)>>)
MsgNo(i) == Bs("m") \o NumText(i)
D0 == [l |-> Bs("{{"), r |-> Bs("}}")]
Usual == Bs("T;N:1,2;X:1c,2;XN:1c,2,3")
Letters(k) == [i \in 1..k |-> 97 + (i % 26)]
Words(k) == [i \in 1..k |-> IF i % 7 = 0 THEN 32 ELSE 97 + (i % 26)]
Every(G(_), k) == Concat([i \in 1..k |-> G(i)])

RECURSIVE Ifs(_), Elifs(_, _), Withs(_), Parens(_)
Ifs(k) == IF k = 0 THEN Act(TB(Bs("inside"))) ELSE Node("if", <<>>, 0, <<TB(MsgNo(k)), List(<<Ifs(k - 1)>>)>>)
Withs(k) == IF k = 0 THEN Act(TB(Bs("inside"))) ELSE Node("with", <<>>, 0, <<TB(MsgNo(k)), List(<<Act(Pipe1(<<Const(".")>>)), Withs(k - 1)>>)>>)
Elifs(i, k) == Node(IF i = 1 THEN "if" ELSE "elif", <<>>, 0, <<Pipe1(<<Fld(".No")>>), List(<<Act(TB(Bs("never") \o NumText(i)))>>),
                    IF i >= k THEN List(<<Act(TB(Bs("last")))>>) ELSE Elifs(i + 1, k)>>)
Parens(k) == IF k = 0 THEN TB(Bs("deep")) ELSE Pipe1(<<Id("printf"), Str("<%s>"), Paren(Parens(k - 1))>>)

Make(f, k) ==       \* the files' nodes
  CASE f = "messages" -> <<[i \in 1..k |-> Act(TB(MsgNo(i)))], <<Act(TB(Bs("last")))>> >>
    [] f = "plurals" -> <<[i \in 1..k |-> Act(Pipe1(<<Id("N"), StrB(MsgNo(i)), StrB(MsgNo(i) \o <<115>>), IF i % 2 = 0 THEN Const("1") ELSE Const("3")>>))] >>
    [] f = "repeated" -> <<[i \in 1..k |-> Act(TB(Bs("a")))], [i \in 1..k |-> IF i % 2 = 0 THEN Act(TB(Bs("a"))) ELSE Act(Pipe1(<<Id("X"), Str("c"), Str("a")>>))] >>
    [] f = "contexts" -> <<[i \in 1..k |-> Act(Pipe1(<<Id("X"), StrB(NumText(i)), Str("m")>>))], <<Act(TB(Bs("m")))>> >>
    [] f = "splits" -> LET t == Letters(k) IN <<[i \in 1..k |-> Act(Pipe1(<<Id("X"), StrB(SubSeq(t, 1, i - 1)), StrB(SubSeq(t, i, k))>>))] >>
    [] f = "ifs" -> << <<Ifs(k)>> >>
    [] f = "withs" -> << <<Withs(k)>> >>
    [] f = "elifs" -> << <<Elifs(1, k)>> >>
    [] f = "parens" -> << <<Act(Parens(k))>> >>
    [] f = "pipes" -> << <<Act(PipeN(<< <<Str("a")>>, <<Id("T")>> >> \o [i \in 1..k |-> <<Id("printf"), Str("%s!")>>]))>> >>
    [] f = "definitions" -> << Every(LAMBDA i : <<Node("def", MsgNo(i), 0, <<List(<<Act(TB(Bs("in") \o NumText(i))), Act(Pipe1(<<Const(".")>>))>>)>>)>>, k)
                               \o [i \in 1..k |-> Node("tmpl", MsgNo(k + 1 - i), 0, <<TB(Bs("to") \o NumText(i))>>)] >>
    [] f = "args" -> << <<Act(Pipe1(<<Id("T"), StrB(Every(LAMBDA i : Bs("%s,"), k))>> \o [i \in 1..k |-> StrB(NumText(i))]))>> >>
    [] f = "letters" -> << <<Act(TB(Letters(k))), Act(Pipe1(<<Id("X"), StrB(Letters(k)), Str("x")>>))>> >>
    [] f = "words" -> << <<Act(Pipe1(<<Id("N"), StrB(Words(k)), StrB(<<122>> \o Words(k)), Const("2")>>)), Act(TB(Bs("z")))>> >>
    [] f = "quotes" -> << <<Act(Pipe1(<<Id("T"), Node("str", [i \in 1..k |-> IF i % 3 = 0 THEN 92 ELSE IF i % 3 = 1 THEN 34 ELSE 10], 1, <<>>)>>)), Act(TB(Bs("z")))>> >>
    [] f = "newlines" -> << <<Act(Pipe1(<<Id("T"), Node("str", [i \in 1..k |-> 10], 2, <<>>)>>)), Act(TB(Bs("z")))>> >>
    [] f = "lines above" -> << <<TextB([i \in 1..k |-> 10]), Act(TB(Bs("a")))>> >>
    [] f = "text around" -> << <<TextB(Words(k)), Act(TB(Bs("a"))), TextB(Words(k)), Act(TB(Bs("b"))), TextB(Letters(k))>> >>
    [] f = "files" -> [i \in 1..k |-> <<Act(TB(MsgNo(i))), Act(TB(Bs("shared")))>>]
Dims(f) == IF f \in {"letters", "words", "quotes", "newlines", "lines above", "text around"} THEN Widths
           ELSE IF f \in {"ifs", "withs", "elifs", "parens", "pipes", "args", "files", "definitions", "splits"} THEN {k \in Depths : k <= NestUpTo} ELSE Depths
Rule == Bs("nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;")
Emit ==
  LET fs == TLCEval(Make(fam', d'))
      ws == TLCEval([i \in 1..Len(fs) |-> WalkAll(D0, fs[i], Start, <<>>)])
      us == TLCEval(Concat([i \in 1..Len(fs) |-> UsesOf(Decls(Usual).kws, ws[i], i)]))
      es == TLCEval(Expected(us))
      ct == TLCEval(CatalogOf(es, Rule, 3, {}))
  IN IF \E i \in 1..Len(es) : ~es[i].clear THEN TRUE ELSE
       CSVWrite("%1$s", <<ToJson([k |-> "chain", files |-> [i \in 1..Len(fs) |-> [name |-> Bs("f") \o NumText(i) \o Bs(".tmpl"), text |-> ws[i].text]], kw |-> Usual, as |-> as',
         head |-> HeadOf(Rule), known |-> [i \in 1..Len(es) |-> [c |-> es[i].c, id |-> es[i].id]], tr |-> From(ct, 2),
         want |-> [i \in 1..Len(fs) |-> Rendered(ct, fs[i])], src |-> [i \in 1..Len(fs) |-> Rendered(<<>>, fs[i])]])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0 /\ as = "po"
Next == fam = "start" /\ fam' \in Families /\ d' \in Dims(fam') /\ as' \in {"po", "mo"}
(* every message is in the template file once, and all that is shown is translated *)
Mark == <<194, 171>>
Grows == (fam # "start" /\ d <= 12) =>
  LET fs == TLCEval(Make(fam, d))
      es == TLCEval(Expected(Concat([i \in 1..Len(fs) |-> UsesOf(Decls(Usual).kws, WalkAll(D0, fs[i], Start, <<>>), i)])))
      N == CASE fam = "messages" -> d + 1 [] fam = "plurals" -> d [] fam = "contexts" -> d + 1 [] fam \in {"ifs", "withs", "elifs", "files"} -> d + 1
             [] fam = "definitions" -> 2 * d [] fam = "splits" -> d [] OTHER -> Len(es)
  IN Len(es) = N /\ N >= 1 /\ IndexOf(Rendered(CatalogOf(es, Rule, 3, {}), fs[1]), Mark) > 0
=============================================================================
