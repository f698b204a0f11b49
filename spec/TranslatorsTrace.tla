-------------------------- MODULE TranslatorsTrace --------------------------
(* Validates recorded histories of additions to a translation.                 *)
EXTENDS Translators, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

StartState(st) == CASE st = "empty" -> <<>>
                    [] st = "two" -> << <<"zh_CN", Tor("s1", "own")>>, <<"fr_FR", Tor("s2", "own")>> >>
                    [] st = "twice" -> Put(Put(Put(Put(Put(<<>>, "zh", Tor("s1", "own")), "", Tor("s2", "own")), "fr", Tor("s3", "file")), "zh_CN", Tor("s4", "file")), "FR-fr", Tor("s5", "own"))
                    [] st = "bound" -> << <<"zh_CN", Tor("b1", "file")>>, <<"ja_JP", Tor("b2", "file")>> >>
Id(st, lang) == LET t == At(st, lang) IN IF t = <<>> THEN "none" ELSE t[1].id
Report(i, want) == CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> want])>>, IOEnv.MISMATCH)
Judge(i) ==
  LET e == Trace[i]
      r == TLCEval(DoTr(s, e.o))
      t == At(r.st, e.l)
      n == [text |-> e.n, one |-> e.n = "1"]
      want == [ret |-> IF r.ret = "any" THEN e.o.ret ELSE r.ret, has |-> [x \in DOMAIN e.has |-> Id(r.st, x)],
               x |-> AskX(t, e.c, e.id, e.args), xn |-> AskXN(t, e.c, e.id, e.id2, n, e.args)]
      got == [ret |-> e.o.ret, has |-> e.has, x |-> e.x, xn |-> e.xn]
  IN s' = r.st /\ (want = got \/ Report(i, want))
Init == l \in {i \in 1..Len(Trace) : Trace[i].e = "begin"} /\ s = StartState(Trace[l].start)
Next == /\ l < Len(Trace)
        /\ Trace[l + 1].e # "begin"
        /\ l' = l + 1
        /\ Judge(l + 1)
=============================================================================
