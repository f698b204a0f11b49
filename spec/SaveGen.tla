------------------------------ MODULE SaveGen ------------------------------
(* C09-C11: catalogs to save, as histories of AddEntry.                        *)
(*   "history": every history over a pool of entries, with replacements        *)
(*   "texts":   one entry whose texts are put together from pieces             *)
(*   "order":   every pair and triple of positions and keys                     *)
EXTENDS Save, Json, CSV, IOUtils
CONSTANTS Mode, MaxLen, NoSep    \* NoSep: without NUL and EOT
VARIABLES adds, text, len
vars == <<adds, text, len>>

Ent(cm, c, id, pl, id2, s, n) == [cm |-> cm, c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Many(b, k) == Concat([i \in 1..k |-> b])
Word == Bs("abcdefghij")
Pool == { Ent(<<>>, <<>>, <<>>, FALSE, <<>>, Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n"), <<>>),
          Ent(<<Bs("# head")>>, <<>>, <<>>, FALSE, <<>>, Bs("Plural-Forms: nplurals=1; plural=0;\n"), <<>>),
          Ent(<<>>, <<>>, Bs("a"), FALSE, <<>>, Bs("A\n\"q\"\\\n"), <<>>),
          Ent(<<Bs("#: b.go:10"), Bs("#. x")>>, <<>>, Bs("a"), TRUE, Bs("as"), <<>>, <<Bs("x"), Bs("y")>>),
          Ent(<<Bs("#: b.go:11")>>, <<>>, Bs("u"), TRUE, Bs("us"), <<>>, <<>>),
          Ent(<<Bs("#: b.go:9")>>, Bs("c"), Bs("a"), FALSE, <<>>, <<195, 169, 255, 1, 127, 13>>, <<>>),
          Ent(<<>>, Bs("c"), <<>>, FALSE, <<>>, Bs("context only"), <<>>),
          Ent(<<>>, Bs("c\n"), Bs("\n"), TRUE, <<>>, <<>>, << <<>>, Bs("\n"), <<>> >>),
          Ent(<<>>, <<>>, Many(Word \o <<32>>, 9), FALSE, <<>>, Many(Word, 9) \o Bs(" \n") \o Many(Word, 3), <<>>) }
Pieces == { Bs("\n"), Bs(" "), Bs("x"), Bs("\""), Bs("\\"), Bs("n"), Bs("7"), Bs("\t"), <<13>>, <<31>>, <<255>>, <<194, 160>>, <<226, 128, 168>>,
            Many(Word, 4), Many(Word, 8), Many(Bs("ab "), 13) } \cup (IF NoSep THEN {} ELSE {<<0>>})
Base(t) == << Ent(<<>>, <<>>, <<>>, FALSE, <<>>, Bs("Language: fr\n") \o t, <<>>),
              Ent(<<>>, t, Bs("k") , FALSE, <<>>, t \o Bs("."), <<>>),
              Ent(<<>>, <<>>, Bs("z") \o t, TRUE, t, <<>>, <<t, Bs("1"), t>>) >>
Places == { <<>>, <<Bs("#: a.go:2")>>, <<Bs("#: a.go:10")>>, <<Bs("#: a.go:2:9")>>, <<Bs("#: a.go:9999")>>, <<Bs("#: a.go:10000")>>, <<Bs("#: a.go:123456789")>>, <<Bs("#: a.go:2:10")>>, <<Bs("#: b.go:1")>>,
            <<Bs("#: a.go")>>, <<Bs("#: a.goc")>>, <<Bs("#: B.go:1 a.go:1")>>, <<Bs("#. t"), Bs("#: a.go:2 b.go:3")>>, <<Bs("#: a.go:2 b.go:20")>>,
            <<Bs("#: a.go:1"), Bs("#: b.go:9")>>, <<Bs("#: a.go:2"), Bs("# t"), Bs("#: a.go:3")>>, <<Bs("#: a.go:2"), Bs("#: a.go:20")>> }
Keys == { << <<>>, Bs("m")>>, <<Bs("c"), Bs("m")>>, <<Bs("c"), Bs("ma")>>, <<Bs("cc"), Bs("m")>>, << <<>>, Bs("B")>>, << <<>>, Bs("~")>> }
Placed == { Ent(p, k[1], k[2], FALSE, <<>>, Bs("t"), <<>>) : p \in Places, k \in Keys }

Hist == CASE Mode = "texts" -> Base(text) [] OTHER -> adds
Emit == CSVWrite("%1$s", <<ToJson([k |-> "save", adds |-> Hist'])>>, IOEnv.CASES)
Init == adds = <<>> /\ text = <<>> /\ len = 0
Options == CASE Mode = "history" -> Pool [] Mode = "order" -> Placed
Next == /\ len < MaxLen /\ len' = len + 1
        /\ IF Mode = "texts" THEN /\ \E p \in Pieces : text' = text \o p
                                  /\ UNCHANGED adds
           ELSE /\ \E e \in Options : adds' = Append(adds, e)
                /\ UNCHANGED text

(* the judgement accepts a catalog plainly written, and the readers see through any text *)
PlainAccepted ==
  LET ct == CatOf(Hist)
      r == TLCEval(ParsePo(PlainPo(ct), TRUE))
  IN ct # <<>> => r.st = "ok" /\ SameElems(Evened(r.ents, ct), Evened(ct, ct)) /\ IdLines(PlainPo(ct)) = Len(ct)
(* the order is antisymmetric where it is judged *)
OrderSane == LET ct == CatOf(Hist) IN \A i, j \in 1..Len(ct) : i # j =>
                LET x == Cmp(ct[i], ct[j]) IN x # 0 /\ (x # 9 => Cmp(ct[j], ct[i]) = 0 - x)
MoReadsBack == NoSep => LET ct == MapSeq(NoComments, CatOf(Hist))
                            r == ParseMo(WriteMo(ct, FALSE, <<"O", "T", "I", "S">>, 0))
                        IN r.st = "ok" /\ Evened(r.ents, ct) = Evened(ct, ct)
=============================================================================
