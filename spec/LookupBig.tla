----------------------------- MODULE LookupBig -----------------------------
(* C01, C02, C14: families of catalogs that grow with d: entries, texts that    *)
(* share long beginnings or endings, every way to split a text into context and  *)
(* message, replacements, forms, header lines, blanks.  Every catalog is asked    *)
(* for what it holds and for what it nearly holds.                               *)
EXTENDS Catalog, Json, CSV, IOUtils
CONSTANTS Families, Depths, Widths, UpTo
VARIABLES fam, d
vars == <<fam, d>>

E(c, id, pl, id2, s, n) == [c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Msg(c, id, s) == E(c, id, FALSE, <<>>, s, <<>>)
Hdr(s) == Msg(<<>>, <<>>, s)
Head2 == Hdr(Bs("Language: de\nPlural-Forms: nplurals=2; plural=n != 1;\n"))
Q(c, id, id2, n) == [c |-> c, id |-> id, id2 |-> id2, n |-> n, args |-> <<>>]
Both(c, id) == << Q(c, id, <<>>, One), Q(c, id, Bs("many"), <<3>>) >>
Asked(ct, q) ==
  LET pick == TLCEval(PickXN(ct, q.c, q.id, q.id2, q.n))
  IN [c |-> q.c, id |-> q.id, id2 |-> q.id2, n |-> ToLimbs(q.n), args |-> q.args, x |-> <<PickX(ct, q.c, q.id)>>, xn |-> pick]
RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Every(G(_), k) == Concat([i \in 1..k |-> G(i)])
Fillup(k, b) == [i \in 1..k |-> b]
Mixed(k) == [i \in 1..k |-> IF i % 9 = 0 THEN 32 ELSE IF i % 13 = 0 THEN 10 ELSE 97 + (i % 26)]
With(x, i, b) == [x EXCEPT ![i] = b]
MsgNo(i) == Bs("m") \o NumText(i)
Ctx(i) == IF i % 3 = 0 THEN <<>> ELSE IF i % 3 = 1 THEN Bs("c") ELSE NumText(i)
Probes(k) == {i \in {1, 2, 3, k - 2, k - 1, k, k + 1, (k + 1) \div 2} : i >= 1}
List(S) == SetToSeq(S)
Case3(adds, ct, qs, names) == [adds |-> adds, ct |-> ct, qs |-> qs, names |-> names]
Made(adds, qs) == Case3(adds, adds, qs, << Bs("Language") >>)
Letters == Bs("abcdefghijklmnopqrstuvwxyz0123456789")

(* texts that are easily taken for nothing, for something else, or changed *)
Odd == << <<32>>, <<9>>, <<10>>, <<13>>, <<11>>, <<12>>, <<8>>, <<7>>, <<27>>, <<31>>, <<127>>, <<32, 32>>, <<32, 10>>, <<13, 10>>, <<97, 13>>, <<13, 97>>, <<97, 13, 10, 98>>, <<97, 32>>,
          <<32, 97>>, <<97, 9>>, <<10, 97>>, <<97, 10>>, <<97, 10, 10>>, <<10, 10, 97>>, <<97, 32, 32, 98>>, <<227, 128, 128>>, <<194, 160>>, <<239, 187, 191>>, <<97, 239, 187, 191>>,
          <<226, 128, 139>>, <<226, 128, 168>>, <<194, 133>>, <<239, 191, 189>>, <<240, 159, 152, 128>>, <<34>>, <<39>>, <<96, 97>>, <<92>>, <<92, 110>>, <<97, 92>>, <<92, 34>>, <<35>>, <<35, 32, 97>>,
          <<45>>, <<48>>, <<46>>, <<58>>, <<58, 32>>, <<59>>, <<124>>, <<97, 58, 32, 98>>, <<109, 115, 103, 105, 100>>, <<60, 98, 62>>, <<38, 97, 109, 112, 59>>, <<195, 137>>, <<69, 204, 129>>,
          <<123>>, <<125>>, <<40, 41>>, <<47, 42>>, <<95>>, <<110, 105, 108>>, <<116, 114, 117, 101>> >>
Make(f, k) ==
  CASE f = "many" -> Made(<<Head2>> \o [i \in 1..k |-> Msg(Ctx(i), MsgNo(i), Bs("t") \o NumText(i))],
                          Every(LAMBDA j : LET i == List(Probes(k))[j] IN Both(Ctx(i), MsgNo(i)) \o Both(Bs("other"), MsgNo(i)) \o Both(<<>>, MsgNo(i)), Cardinality(Probes(k))))
    [] f = "nested" -> Made(<<Head2>> \o [i \in 1..k |-> Msg(Fillup(i % 4, 97), Fillup(i, 97), NumText(i))],
                            Every(LAMBDA i : Both(Fillup(i % 4, 97), Fillup(i, 97)) \o Both(Fillup((i + 1) % 4, 97), Fillup(i, 97)), k + 1))
    [] f = "splits" -> LET t == [i \in 1..k |-> Letters[1 + ((i - 1) % 36)]]
                       IN Made([i \in 1..k |-> Msg(SubSeq(t, 1, i - 1), SubSeq(t, i, k), Bs("at") \o NumText(i))],
                               Every(LAMBDA i : Both(SubSeq(t, 1, i - 1), SubSeq(t, i, k)), k))
    [] f = "unsplit" -> LET t == [i \in 1..k |-> Letters[1 + ((i - 1) % 36)]]     \* only one of the splits is there
                            at == (k + 1) \div 2
                        IN Made(<<Head2, Msg(SubSeq(t, 1, at - 1), SubSeq(t, at, k), Bs("here"))>>,
                                Every(LAMBDA i : Both(SubSeq(t, 1, i - 1), SubSeq(t, i, k)), k))
    [] f = "replaced" -> LET adds == [i \in 1..k |-> Msg(Bs("c"), IF i % 2 = 0 THEN Bs("a") ELSE Bs("b"), NumText(i))]
                         IN Case3(adds, FoldLeft(PutEntry, <<>>, adds), Both(Bs("c"), Bs("a")) \o Both(Bs("c"), Bs("b")) \o Both(<<>>, Bs("a")), <<>>)
    [] f = "long" -> LET w == Mixed(k)
                         v == << w, With(w, k, 65), With(w, 1, 65), With(w, (k + 1) \div 2, 65), w \o <<65>>, SubSeq(w, 1, k - 1) >>
                     IN Made(<<Msg(Bs("x"), v[1], Bs("whole")), Msg(Bs("x"), v[2], Bs("last"))>>
                             \o (IF k > 2 THEN <<Msg(Bs("x"), v[3], Bs("first")), Msg(v[4], Bs("x"), Bs("ctx"))>> ELSE <<>>),
                             Every(LAMBDA i : Both(Bs("x"), v[i]), 6) \o Both(w, Bs("x")) \o Both(v[4], Bs("x")) \o Both(v[5], Bs("x")))
    [] f = "answers" -> LET w == Mixed(k)
                        IN Made(<<Head2, Msg(<<>>, Bs("a"), w), E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<w \o <<49>>, w \o <<50>> >>)>>,
                                Both(<<>>, Bs("a")) \o Both(<<>>, Bs("p")) \o Both(<<>>, Bs("p") \o w))
    [] f = "odd" -> LET o == Odd[k]
                    IN Made(<<Head2, Msg(<<>>, Bs("a"), o), Msg(<<>>, o, Bs("id")), Msg(o, Bs("a"), Bs("ctx")), Msg(o, o, o),
                              E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<o, Bs("more")>>), E(Bs("c"), Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("one"), o>>), E(o, Bs("p"), TRUE, o, <<>>, <<o, o \o o>>),
                              Msg(Bs("c"), o \o o, o \o Bs("x"))>>,
                            Both(<<>>, Bs("a")) \o Both(<<>>, o) \o Both(o, Bs("a")) \o Both(o, o) \o Both(<<>>, Bs("p")) \o Both(Bs("c"), Bs("p")) \o Both(o, Bs("p"))
                            \o Both(Bs("c"), o \o o) \o Both(Bs("c"), o) \o Both(Bs("x"), o) \o Both(o \o o, o)
                            \o << Q(<<>>, Bs("none"), o, <<5>>), Q(o, Bs("none"), o, One), Q(o, Bs("p"), <<>>, <<5>>) >>)
    (* plural forms *)
    [] f = "counts" -> Made(<<Hdr(Bs("Language: xx\nPlural-Forms: nplurals=9; plural=n;")), E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, [i \in 1..k |-> MsgNo(i)])>>,
                            [i \in 1..(k + 2) |-> Q(<<>>, Bs("p"), Bs("many"), Small(i - 1))])
    [] f = "modulo" -> Made(<<Hdr(Bs("Language: xx\nPlural-Forms: nplurals=9; plural=n%") \o NumText(k) \o Bs(";")),
                              E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, [i \in 1..9 |-> MsgNo(i)])>>,
                            [i \in 1..13 |-> Q(<<>>, Bs("p"), Bs("many"), Small((k * i) + (i % 3) - 1))])
    [] f = "plurals" -> Made(<<Head2>> \o [i \in 1..k |-> E(Ctx(i), MsgNo(i), TRUE, MsgNo(i + 1), <<>>, <<Bs("one") \o NumText(i), Bs("more") \o NumText(i)>>)],
                             Every(LAMBDA j : LET i == List(Probes(k))[j]
                                             IN << Q(Ctx(i), MsgNo(i), MsgNo(i + 1), One), Q(Ctx(i), MsgNo(i), MsgNo(i + 1), <<0>>), Q(Ctx(i), MsgNo(i), MsgNo(i), <<5>>),
                                                   Q(Bs("no"), MsgNo(i), MsgNo(i + 1), <<5>>) >>, Cardinality(Probes(k))))
    [] f = "parens" -> Made(<<Hdr(Bs("Plural-Forms: nplurals=2; plural=") \o Fillup(k, 40) \o Bs("n != 1") \o Fillup(k, 41) \o Bs(";\nLanguage: de\n")),
                              E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("one"), Bs("more")>>)>>,
                            <<Q(<<>>, Bs("p"), Bs("many"), One), Q(<<>>, Bs("p"), Bs("many"), <<0>>)>>)
    [] f = "rulechain" -> Made(<<Hdr(Bs("Language: de\nPlural-Forms: nplurals=3; plural=") \o Every(LAMBDA i : Bs("n==") \o NumText(i * 7) \o Bs(" ? ") \o NumText(i % 3) \o Bs(" : "), k)
                                     \o Bs("2;\n")), E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("A"), Bs("B"), Bs("C")>>)>>,
                               [i \in 1..9 |-> Q(<<>>, Bs("p"), Bs("many"), Small(IF i < 7 THEN 7 * i ELSE 7 * (k + 7 - i)))])
    (* headers *)
    [] f = "hdrlines" -> Case3(<<Hdr(Every(LAMBDA i : Bs("X-") \o NumText(i) \o Bs(": v") \o NumText(i) \o <<10>>, k) \o Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n")),
                                 E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("one"), Bs("more")>>)>>,
                               <<Hdr(Every(LAMBDA i : Bs("X-") \o NumText(i) \o Bs(": v") \o NumText(i) \o <<10>>, k) \o Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n")),
                                 E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("one"), Bs("more")>>)>>,
                               <<Q(<<>>, Bs("p"), Bs("many"), <<0>>), Q(<<>>, Bs("p"), Bs("many"), <<2>>)>>,
                               << Bs("X-1"), Bs("X-") \o NumText(k), Bs("X-") \o NumText(k + 1), Bs("Language"), Bs("Plural-Forms") >>)
    [] f = "hdrdup" -> LET h == <<Hdr(Every(LAMBDA i : Bs("Language: l") \o NumText(i) \o Bs("\nX: ") \o NumText(i) \o <<10>>, k))>>
                       IN Case3(h, h, <<>>, << Bs("Language"), Bs("X") >>)
    [] f = "hdrjunk" -> LET h == <<Hdr(Every(LAMBDA i : IF i % 3 = 0 THEN <<10>> ELSE IF i % 3 = 1 THEN Bs("junk\n") ELSE Bs("Language:none\n"), k) \o Bs("Language: it"))>>
                        IN Case3(h, h, <<>>, << Bs("Language"), Bs("junk") >>)
    [] f = "hdrwide" -> LET h == <<Hdr(Bs("X-") \o Fillup(k, 121) \o Bs(": ") \o Fillup(k, 122) \o Bs("\nLanguage: ") \o Fillup(k, 113) \o Bs("\nZ: z"))>>
                        IN Case3(h, h, <<>>, << Bs("X-") \o Fillup(k, 121), Bs("X-") \o Fillup(k + 1, 121), Bs("Language"), Bs("Z") >>)
    [] f = "hdrblank" -> LET h == <<Hdr(Fillup(k, 32) \o Bs("Language") \o Fillup(k, 9) \o Bs(": ") \o Fillup(k, 32) \o Bs("it") \o Fillup(k, 9) \o <<10>> \o Bs("Plural-Forms: ") \o Fillup(k, 32)
                                  \o Bs("nplurals") \o Fillup(k, 32) \o Bs("=") \o Fillup(k, 32) \o Bs("2") \o Fillup(k, 32) \o Bs(";") \o Fillup(k, 32) \o Bs("plural") \o Fillup(k, 32)
                                  \o Bs("=") \o Fillup(k, 32) \o Bs("n>1;")), E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("one"), Bs("more")>>)>>
                         IN Case3(h, h, <<Q(<<>>, Bs("p"), Bs("many"), <<0>>), Q(<<>>, Bs("p"), Bs("many"), <<2>>)>>, << Bs("Language") >>)
    [] f = "hdragain" -> LET adds == [i \in 1..k |-> Hdr(Bs("Language: l") \o NumText(i) \o Bs("\nPlural-Forms: nplurals=3; plural=") \o NumText(i % 3) \o <<59>>)]
                                     \o <<E(<<>>, Bs("p"), TRUE, Bs("many"), <<>>, <<Bs("A"), Bs("B"), Bs("C")>>)>>
                         IN Case3(adds, FoldLeft(PutEntry, <<>>, adds), <<Q(<<>>, Bs("p"), Bs("many"), <<0>>)>>, << Bs("Language") >>)
Dims(f) == CASE f = "odd" -> 1..Len(Odd)
             [] f \in {"long", "answers"} -> Widths
             [] f \in {"nested", "splits", "unsplit", "parens", "rulechain", "hdrjunk", "hdrwide", "hdrblank", "hdrdup"} -> Depths \cap 1..UpTo
             [] OTHER -> Depths
Emit == LET m == TLCEval(Make(fam', d'))
            ct == TLCEval(m.ct)
        IN CSVWrite("%1$s", <<ToJson([k |-> "look", adds |-> m.adds, names |-> m.names, lang |-> Lang(ct),
                                      hs |-> [i \in 1..Len(m.names) |-> HeaderOf(ct, m.names[i])], qs |-> [i \in 1..Len(m.qs) |-> Asked(ct, m.qs[i])]])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0
Next == fam = "start" /\ fam' \in Families /\ d' \in Dims(fam')
(* what the additions amount to has every key once *)
UniqueKeys == (fam # "start" /\ d <= 40) => LET ct == TLCEval(Make(fam, d).ct) IN \A i, j \in 1..Len(ct) : (ct[i].c = ct[j].c /\ ct[i].id = ct[j].id) => i = j
=============================================================================
