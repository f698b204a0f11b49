----------------------------- MODULE ExtractBig -----------------------------
(* C19, C20: families of templates that grow with d: long texts, lines and     *)
(* literals, many calls, messages, arguments, definitions, files and keywords, *)
(* deep nesting.  The expected entries are those of Extract.                   *)
EXTENDS Extract, Json, CSV, IOUtils
CONSTANTS Depths, Widths, Families
VARIABLES fam, d
vars == <<fam, d>>

Str(s) == Node("str", s, 0, <<>>)
Raw(s) == Node("str", s, 1, <<>>)
Id(s) == Node("id", Bs(s), 0, <<>>)
Fld(s) == Node("field", s, 0, <<>>)
Pipe1(os) == Node("pipe", <<>>, 0, <<Node("cmd", <<>>, 0, os)>>)
Paren(p) == Node("paren", <<>>, 0, <<p>>)
Act(p) == Node("act", <<>>, 0, <<p>>)
Text(s) == Node("text", s, 0, <<>>)
List(ns) == Node("list", <<>>, 0, ns)
T1(s) == Pipe1(<<Id("T"), Str(s)>>)
N2(s, pl) == Pipe1(<<Id("N"), Str(s), Str(pl)>>)
Delims == [l |-> Bs("{{"), r |-> Bs("}}")]
RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<48 + k>> ELSE Append(DigitsOf(k \div 10), 48 + (k % 10))
Wide(p, k) == p \o <<48 + ((k \div 1000) % 10), 48 + ((k \div 100) % 10), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
Newlines(k) == [i \in 1..k |-> 10]
Filler(k) == [i \in 1..k |-> IF i % 9 = 0 THEN 32 ELSE IF i % 7 = 0 THEN 84 ELSE 97 + (i % 26)]
Break == Text(<<10>>)
Fold(F(_, _), x, k) == FoldLeft(F, x, [i \in 1..k |-> i])

(* texts that are easily taken for nothing, for something else, or changed *)
Odd == << <<32>>, <<9>>, <<10>>, <<13>>, <<11>>, <<12>>, <<8>>, <<7>>, <<27>>, <<31>>, <<127>>, <<32, 32>>, <<32, 10>>, <<13, 10>>, <<97, 13>>, <<13, 97>>, <<97, 13, 10, 98>>, <<97, 32>>,
          <<32, 97>>, <<97, 9>>, <<10, 97>>, <<97, 10>>, <<97, 10, 10>>, <<10, 10, 97>>, <<97, 32, 32, 98>>, <<227, 128, 128>>, <<194, 160>>, <<239, 187, 191>>, <<97, 239, 187, 191>>,
          <<226, 128, 139>>, <<226, 128, 168>>, <<194, 133>>, <<239, 191, 189>>, <<240, 159, 152, 128>>, <<34>>, <<39>>, <<96, 97>>, <<92>>, <<92, 110>>, <<97, 92>>, <<92, 34>>, <<35>>, <<35, 32, 97>>,
          <<45>>, <<48>>, <<46>>, <<58>>, <<58, 32>>, <<59>>, <<124>>, <<97, 58, 32, 98>>, <<109, 115, 103, 105, 100>>, <<60, 98, 62>>, <<38, 97, 109, 112, 59>>, <<195, 137>>, <<69, 204, 129>>,
          <<123>>, <<125>>, <<40, 41>>, <<47, 42>>, <<95>>, <<110, 105, 108>>, <<116, 114, 117, 101>> >>
(* nodes of a family's files *)
One(f, k) ==
  CASE f = "lines"   -> <<Act(T1(Bs("a"))), Text(Newlines(k)), Act(T1(Bs("b"))), Text(Newlines(k)), Act(N2(Bs("b"), Bs("bs"))), Break,
                          Act(T1(Bs("a")))>>
    [] f = "wide"    -> <<Text(Filler(k)), Act(T1(Bs("a"))), Text(Filler(k)), Act(N2(Bs("c"), Bs("cs"))), Break, Act(T1(Bs("a")))>>
    [] f = "comment" -> <<Node("cmt", Filler(k) \o Newlines(2), 0, <<>>), Act(T1(Bs("a")))>>
    [] f = "literal" -> <<Act(T1(Filler(k))), Break, Act(Pipe1(<<Id("N"), Raw(Filler(k) \o <<10>>), Raw(Newlines(1) \o Filler(k))>>)), Break,
                          Act(Pipe1(<<Id("X"), Str(Filler(k)), Str(Bs("a"))>>)), Act(T1(Bs("a")))>>
    [] f = "args"    -> <<Act(Pipe1(<<Id("T"), Str(Bs("a"))>> \o [i \in 1..k |-> Fld(Bs(".V"))] \o <<Paren(T1(Bs("z")))>>))>>
    [] f = "parens"  -> <<Act(Pipe1(<<Id("T"), Fold(LAMBDA p, i : Paren(Pipe1(<<p>>)), Str(Bs("a")), k)>>)), Break,
                          Act(Fold(LAMBDA p, i : Pipe1(<<Paren(p)>>), N2(Bs("b"), Bs("bs")), k))>>
    [] f = "calls"   -> <<Act(Fold(LAMBDA p, i : Pipe1(<<Id("T"), Str(Wide(Bs("m"), i)), Paren(p)>>), T1(Bs("a")), k))>>
    [] f = "pipes"   -> <<Act(Node("pipe", <<>>, 0, <<Node("cmd", <<>>, 0, <<Str(Bs("a"))>>)>> \o [i \in 1..k |-> Node("cmd", <<>>, 0, <<Id("T")>>)]
                                 \o <<Node("cmd", <<>>, 0, <<Id("N"), Str(Bs("b")), Str(Bs("bs"))>>)>>))>>
    [] f = "fields"  -> <<Act(Pipe1(<<Fld(Concat([i \in 1..k |-> Bs(".Ab")]) \o Bs(".T")), Str(Bs("a"))>>))>>
    [] f = "ifs"     -> <<Fold(LAMBDA n, i : Node(IF i % 3 = 0 THEN "if" ELSE IF i % 3 = 1 THEN "with" ELSE "range", <<>>, 0,
                                                  <<T1(Wide(Bs("c"), i)), List(<<Break, n>>), List(<<Act(T1(Bs("e")))>>)>>), Act(T1(Bs("a"))), k)>>
    [] f = "elses"   -> <<Node("if", <<>>, 0, <<T1(Bs("first")), List(<<>>)>>
                             \o <<Fold(LAMBDA n, i : Node("elif", <<>>, 0, <<T1(Wide(Bs("c"), i)), List(<<Break>>), n>>), List(<<Act(T1(Bs("a")))>>), k)>>)>>
    [] f = "uses"    -> Concat([i \in 1..k |-> <<Act(IF i % 5 = 0 THEN N2(Bs("b"), Bs("bs")) ELSE T1(Bs("a"))), Break>>])
    [] f = "sameline" -> [i \in 1..k |-> Act(T1(Bs("a")))]
    [] f = "msgs"    -> Concat([i \in 1..k |-> <<Act(IF i % 7 = 0 THEN N2(Wide(Bs("m"), i), Bs("p")) ELSE T1(Wide(Bs("m"), i))), Break>>])
    [] f = "defs"    -> Concat([i \in 1..k |-> <<Node("def", Wide(Bs("d"), k - i), 0, <<List(<<Act(T1(Wide(Bs("m"), i % 10))), Break>>)>>)>>])
    [] f = "files"   -> <<Act(T1(Bs("a"))), Act(N2(Wide(Bs("m"), k), Bs("p"))), Break>>
    [] f = "kws"     -> <<Act(T1(Bs("a"))), Act(Pipe1(<<Fld(Bs(".") \o Wide(Bs("K"), k)), Str(Bs("last"))>>)), Act(Pipe1(<<Fld(Bs(".K0001")), Str(Bs("first"))>>))>>
    [] f = "place"   -> <<Act(Pipe1(<<Id("F")>> \o [i \in 1..(k + 2) |-> Str(Wide(Bs("v"), i))])),
                          Act(Pipe1(<<Id("F")>> \o [i \in 1..(k - 1) |-> Str(Wide(Bs("w"), i))]))>>
    [] f \in {"odd", "oddhex"} -> LET o == Odd[k]
                         S(x) == Node("str", x, IF f = "odd" THEN 0 ELSE 3, <<>>)
                     IN <<Act(Pipe1(<<Id("T"), S(o)>>)), Break, Act(Pipe1(<<Id("N"), S(o \o Bs("n")), S(o)>>)), Break, Act(Pipe1(<<Id("X"), S(o), S(o)>>)), Break,
                          Act(Pipe1(<<Id("XN"), S(o), S(Bs("n") \o o), S(o \o o)>>)), Break, Act(Node("pipe", <<>>, 0, <<Node("cmd", <<>>, 0, <<S(o \o o)>>), Node("cmd", <<>>, 0, <<Id("T")>>)>>))>>
KwOf(f, k) ==
  CASE f = "kws"   -> Joined([i \in 1..k |-> Wide(Bs("K"), i)] \o <<Bs("T:1")>>, <<59>>)
    [] f = "place" -> Bs("F:") \o DigitsOf(k) \o Bs("c,") \o DigitsOf(k + 1) \o Bs(",1;F:") \o DigitsOf(k + 2)
    [] OTHER -> Bs("T;N:1,2;X:1c,2;XN:1c,2,3")
FileName(i) == Wide(Bs("f"), i) \o Bs(".tmpl")
Dims(f) == IF f \in {"odd", "oddhex"} THEN 1..Len(Odd) ELSE IF f \in {"lines", "wide", "comment", "literal"} THEN Widths ELSE Depths

Walked(f, k, i) == TLCEval(WalkAll(Delims, One(f, i), Start, <<>>))
Emit ==
  LET ks == IF fam' = "files" THEN [i \in 1..d' |-> i] ELSE <<d'>>
      ws == TLCEval([i \in 1..Len(ks) |-> Walked(fam', d', ks[i])])
      kw == TLCEval(KwOf(fam', d'))
      us == TLCEval(Concat([i \in 1..Len(ks) |-> UsesOf(Decls(kw).kws, ws[i], i)]))
  IN CSVWrite("%1$s", <<ToJson([k |-> "xt", files |-> [i \in 1..Len(ks) |-> [name |-> FileName(i), text |-> ws[i].text]],
                                l |-> Delims.l, r |-> Delims.r, kw |-> kw, fn |-> <<>>, exp |-> Expected(us)])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Dims(fam')
(* what is expected grows with d alone *)
Count(f, k) ==
  CASE f \in {"lines", "args", "parens", "uses", "wide"} -> IF f = "uses" /\ k < 5 THEN 1 ELSE 2
    [] f \in {"comment", "fields", "sameline"} -> 1
    [] f = "pipes" -> 2
    [] f = "literal" -> 4
    [] f = "calls" -> k + 1
    [] f \in {"ifs", "elses"} -> k + 2
    [] f = "msgs" -> k
    [] f = "defs" -> IF k > 10 THEN 10 ELSE k
    [] f = "files" -> k + 1
    [] f = "kws" -> IF k = 1 THEN 3 ELSE 3
    [] f = "place" -> 2
    [] f \in {"odd", "oddhex"} -> 5
Grows ==
  fam # "start" =>
    LET ks == IF fam = "files" THEN [i \in 1..d |-> i] ELSE <<d>>
        us == Concat([i \in 1..Len(ks) |-> UsesOf(Decls(KwOf(fam, d)).kws, Walked(fam, d, ks[i]), i)])
        e == TLCEval(Expected(us))
    IN Len(e) = Count(fam, d) /\ \A i \in 1..Len(e) : e[i].must
=============================================================================
