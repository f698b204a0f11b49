---------------------------- MODULE RegistryTrace ----------------------------
(* Validates recorded histories of the registry: every logged operation is    *)
(* performed on the specification's state, every logged answer must be the    *)
(* one the specification gives in that state.                                 *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANT Sys
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Starts == {i \in 1..Len(Trace) : Trace[i].e = "begin"}
Fresh == [inst |-> <<New(Sys)>>, g |-> 1]
Report(i, want) == CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> want])>>, IOEnv.MISMATCH)

LocaleOf(sp) == IF sp = "" THEN Sys ELSE IF sp = None THEN None ELSE NormOf(sp)
SourceOf(fs) == LET g == SelectSeq(fs, LAMBDA f : f.lang # "")
                IN [ok |-> fs # <<>>,
                    cont |-> [k \in 1..Len(g) |-> <<NormOf(g[k].lang), MkCat(g[k])>>]]

Apply(e) == Do(s, [op |-> e.op, i |-> e.i, d |-> e.d, l |-> IF e.op = "setsrc" THEN SrcLangOf(e.l) ELSE LocaleOf(e.l),
                   src |-> SourceOf(e.files)], Sys)
Settings(t) == [loc |-> t.loc, dom |-> t.dom, src |-> t.src, used |-> Used(t),
                locs |-> SelectSeq(Order, LAMBDA x : x \in LangSet(t))]
Judge(i) ==
  LET e == Trace[i] IN
  CASE e.e = "op" -> LET r == TLCEval(Apply(e)) IN s' = r.st /\ (r.ret = e.ret \/ Report(i, r.ret))
    [] e.e = "x" -> LET want == AnsX(s.inst[e.i], e.c, e.id, e.arg) IN s' = s /\ (want = e.res \/ Report(i, want))
    [] e.e = "xn" -> LET want == AnsXN(s.inst[e.i], e.c, e.id, e.id2, <<e.hi, e.n>>, e.arg)
                     IN s' = s /\ (want = e.res \/ Report(i, want))
    [] e.e = "settings" -> LET want == Settings(s.inst[e.i])
                     IN s' = s /\ (want = e.res \/ Report(i, want))
    [] e.e = "domains" -> LET t == s.inst[e.i] want == DomNames(t)
                     IN s' = s /\ ((ToSet(e.res) = want /\ Len(e.res) = Cardinality(want)
                                    /\ \A k \in 1..Len(e.has) : e.has[k].v = (e.has[k].d \in want))
                                   \/ Report(i, [doms |-> want]))
Init == l \in Starts /\ s = Fresh
Next == /\ l < Len(Trace)
        /\ Trace[l + 1].e # "begin"
        /\ l' = l + 1
        /\ Judge(l + 1)
=============================================================================
