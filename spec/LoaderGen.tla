----------------------------- MODULE LoaderGen -----------------------------
(* C07: every small tree over a set of paths and kinds of content.             *)
EXTENDS Loader, Json, CSV, IOUtils
CONSTANTS Kinds, Langs, MaxNodes, Denials, Names
VARIABLES nodes, last, deny
vars == <<nodes, last, deny>>

P(a) == [k \in 1..Len(a) |-> Bs(a[k])]
PathsPlain == << P(<<"a.po">>), P(<<"b.po">>), P(<<"a.mo">>), P(<<"d", "a.po">>), P(<<"d", "e", "z.mo">>), P(<<"d", "e", "c.po">>),
            P(<<"d.po", "x.mo">>), P(<<"A.PO">>), P(<<".po">>), P(<<"n.txt">>), P(<<"d", "a.mo">>), P(<<"a.po.bak">>) >>
(* names that mean something elsewhere mean nothing here                       *)
PathsOdd == << P(<<".i18n", "a.po">>), P(<<"_x", "a.mo">>), P(<<"vendor", "a.po">>), P(<<"testdata", "_b.po">>), P(<<"node_modules", "a.po">>), P(<<"_a.po">>),
               P(<<".a.po">>), P(<<"a b.po">>), P(<<".git", "po", "a.mo">>), P(<<"#a#.po">>), P(<<"tmp", "~a.po">>), P(<<"LC_MESSAGES", "m.mo">>), P(<<"x.mo", "a">>),
               P(<<"-.mo">>), P(<<"po", "po">>), P(<<"mo">>), P(<<"...po">>), P(<<"a.po.po">>) >>
Paths == IF Names = "odd" THEN PathsOdd ELSE PathsPlain
DenySets == << <<>>, << P(<<"d">>) >>, << P(<<"d", "e">>), P(<<"d.po">>) >>, << <<>> >> >>

Emit == nodes' = nodes \/
  LET r == TLCEval(Load(nodes', deny'))
  IN CSVWrite("%1$s", <<ToJson([k |-> "load", nodes |-> nodes', deny |-> deny', ok |-> r.ok, reg |-> r.reg,
       single |-> [j \in 1..Len(nodes') |-> Load(<<[nodes'[j] EXCEPT !.p = <<@[Len(@)]>>]>>, <<>>)]])>>, IOEnv.CASES)

Init == nodes = <<>> /\ last = 0 /\ deny \in {DenySets[k] : k \in Denials}
Next == /\ Len(nodes) < MaxNodes
        /\ \E k \in (last + 1)..Len(Paths), kd \in Kinds, l \in Langs :
             /\ (kd \notin {"good", "big"} => l = CHOOSE x \in Langs : TRUE)
             /\ nodes' = Append(nodes, [p |-> Paths[k], kind |-> kd, lang |-> l])
             /\ last' = k
        /\ UNCHANGED deny
WalkAgrees == Agrees(nodes, deny)
=============================================================================
