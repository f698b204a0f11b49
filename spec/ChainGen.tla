------------------------------ MODULE ChainGen ------------------------------
(* C25: templates that can be executed, extracted, translated in whole or in    *)
(* part, delivered as PO or MO and executed in the translation.                  *)
EXTENDS Chain, Json, CSV, IOUtils
CONSTANTS MaxLen, Pool
VARIABLES cur, del
vars == <<cur, del>>

Str(s) == Node("str", Bs(s), 0, <<>>)
Raw(s) == Node("str", Bs(s), 1, <<>>)
Esc(s) == Node("str", Bs(s), 2, <<>>)
Const(s) == Node("const", Bs(s), 0, <<>>)
Id(s) == Node("id", Bs(s), 0, <<>>)
Fld(s) == Node("field", Bs(s), 0, <<>>)
Var(s) == Node("var", Bs(s), 0, <<>>)
Pipe1(os) == Node("pipe", <<>>, 0, <<Node("cmd", <<>>, 0, os)>>)
PipeN(cs) == Node("pipe", <<>>, 0, [i \in 1..Len(cs) |-> Node("cmd", <<>>, 0, cs[i])])
Paren(p) == Node("paren", <<>>, 0, <<p>>)
Act(p) == Node("act", <<>>, 0, <<p>>)
ActY(p) == Node("act", <<>>, 4, <<p>>)
Text(s) == Node("text", Bs(s), 0, <<>>)
List(ns) == Node("list", <<>>, 0, ns)
WithVars(s, p) == [p EXCEPT !.s = Bs(s)]
T(s) == Pipe1(<<Id("T"), Str(s)>>)
D0 == [l |-> Bs("{{"), r |-> Bs("}}")]
Usual == Bs("T;N:1,2;X:1c,2;XN:1c,2,3")
Long == "a message that is quite a bit longer than what fits on one line of the file, so that it is wrapped"

Items ==
  << <<Act(T("a"))>>,
     <<Act(Pipe1(<<Id("T"), Str("hi %s"), Str("you")>>))>>,
     <<Act(Pipe1(<<Id("N"), Str("one"), Str("%d many"), Const("1"), Const("1")>>))>>,
     <<Act(Pipe1(<<Id("N"), Str("one"), Str("%d many"), Const("2"), Const("2")>>))>>,
     <<Act(Pipe1(<<Fld(".t.N"), Str("one"), Raw("%d many"), Const("5"), Const("7")>>))>>,
     <<Act(Pipe1(<<Id("X"), Str("c"), Str("a")>>))>>,
     <<Act(Pipe1(<<Id("XN"), Str("c"), Str("one"), Str("%d many"), Const("2"), Const("2")>>)), Text("\n"),
       Act(Pipe1(<<Id("XN"), Str("c"), Str("one"), Str("%d many"), Const("0"), Const("3")>>))>>,
     <<Act(PipeN(<< <<Str("a")>>, <<Id("T")>> >>))>>,
     <<ActY(Pipe1(<<Id("printf"), Str("<%s>"), Paren(T("b"))>>))>>,
     <<Act(PipeN(<< <<Id("T"), Str("b")>>, <<Id("printf"), Str("%s!")>> >>))>>,
     <<Node("if", <<>>, 0, <<T("cond"), List(<<Act(T("yes"))>>)>>)>>,
     <<Node("if", <<>>, 0, <<Pipe1(<<Fld(".No")>>), List(<<Act(T("never"))>>), List(<<Text("-"), Act(T("else"))>>)>>)>>,
     <<Node("with", <<>>, 0, <<T("w"), List(<<Act(Pipe1(<<Const(".")>>)), Act(T("in w"))>>)>>)>>,
     <<Node("with", <<>>, 0, <<WithVars("$w := ", Pipe1(<<Id("X"), Str("ctx"), Str("w")>>)), List(<<Act(Pipe1(<<Var("$w")>>))>>)>>)>>,
     <<Node("range", <<>>, 0, <<Pipe1(<<Fld(".L")>>), List(<<Act(Pipe1(<<Id("T"), Str("item %s"), Const(".")>>)), Text(",")>>)>>)>>,
     <<Node("def", Bs("d"), 0, <<List(<<Act(T("defined")), Act(Pipe1(<<Const(".")>>))>>)>>), Node("tmpl", Bs("d"), 0, <<T("handed")>>)>>,
     <<Node("block", Bs("blk"), 0, <<T("w"), List(<<Act(Pipe1(<<Const(".")>>)), Act(T("in block"))>>)>>)>>,
     <<Act(WithVars("$v := ", T("v"))), Act(Pipe1(<<Id("printf"), Str("%s%s"), Var("$v"), Paren(T("a"))>>))>>,
     <<Act(Pipe1(<<Fld(".t.T"), Str("method")>>)), Act(Pipe1(<<Var("$.t.X"), Str("c"), Str("method")>>))>>,
     <<Act(Pipe1(<<Id("call"), Fld(".T"), Str("called")>>))>>,
     <<Act(Pipe1(<<Id("T"), Raw("raw\n\"q\" \\n \\")>>))>>,
     <<Act(Pipe1(<<Id("T"), Esc("tab\tand\nlines\n")>>))>>,
     <<Act(T(Long)), Act(Pipe1(<<Id("X"), Str(Long), Str("x")>>))>>,
     <<Act(Pipe1(<<Id("T"), Node("str", <<230, 151, 165, 32, 195, 169>>, 0, <<>>)>>))>>,
     <<Act(Pipe1(<<Id("T"), Paren(Pipe1(<<Id("printf"), Str("a")>>))>>))>>,
     <<Act(Pipe1(<<Id("T"), Fld(".V")>>)), Act(Pipe1(<<Id("X"), Str("c"), Fld(".V")>>))>>,
     <<Act(Pipe1(<<Id("T"), Paren(T("a"))>>))>>,
     <<Act(Pipe1(<<Id("N"), Str("c"), Str("cs"), Const("1")>>)), Act(Pipe1(<<Id("N"), Str("c"), Str("cs"), Const("3")>>))>>,
     <<Act(PipeN(<< <<Str("last")>>, <<Id("X"), Str("c")>> >>)), Act(PipeN(<< <<Paren(T("first"))>>, <<Id("T"), Str("then %s")>> >>))>>,
     <<Act(Pipe1(<<Id("T"), Str("  padded ")>>)), Act(Pipe1(<<Id("X"), Str(" c "), Str("padded")>>)), Act(Pipe1(<<Id("T"), Str("100%")>>))>>,
     <<Node("if", <<>>, 0, <<Pipe1(<<Fld(".No")>>), List(<<Act(T("never"))>>),
         Node("elif", <<>>, 0, <<Pipe1(<<Id("X"), Str("c"), Str("elif")>>), List(<<Act(T("elif"))>>), List(<<Act(T("last else"))>>)>>)>>)>>,
     <<Act(Pipe1(<<Id("T"), Str("#, not a comment")>>)), Act(Pipe1(<<Id("T"), Str("msgid \"x\"")>>)), Act(Pipe1(<<Id("X"), Str("#"), Str("\"")>>))>>,
     <<Act(Pipe1(<<Id("N"), Str("%s: one"), Str("%s: many"), Const("3"), Paren(T("total"))>>))>>,
     <<Act(Pipe1(<<Id("X"), Node("str", <<97, 13, 10, 27>>, 2, <<>>), Node("str", <<13, 128, 92, 49, 127, 194, 160, 34>>, 3, <<>>)>>)), Act(Pipe1(<<Id("T"), Node("str", <<9, 255, 48>>, 3, <<>>)>>))>>,
     <<Act(Pipe1(<<Id("X"), Str(" c"), Str("k")>>)), Act(Pipe1(<<Id("X"), Str("c"), Str("k")>>)), Act(Pipe1(<<Id("X"), Str("C "), Str("k")>>)),
       Act(Pipe1(<<Id("T"), Str("k")>>)), Act(Pipe1(<<Id("T"), Str("k ")>>)), Act(Pipe1(<<Id("T"), Str("K")>>)), Act(Pipe1(<<Id("X"), Str("k"), Str("c")>>))>>,
     <<Act(Pipe1(<<Id("XN"), Str("d"), Str("k2"), Str("k2s"), Const("2")>>)), Act(Pipe1(<<Id("N"), Str("k2"), Str("k2t"), Const("2")>>)),
       Act(Pipe1(<<Id("T"), Str("k2s")>>)), Act(Pipe1(<<Id("X"), Str(""), Str("k2t")>>))>>,
     <<Node("cmt", Bs(" T \"comment\" "), 0, <<>>), Text("T \"plain\"\n")>> >>
Forms == << [rule |-> Bs("nplurals=2; plural=n != 1;"), n |-> 2],
            [rule |-> Bs("nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;"), n |-> 3],
            [rule |-> Bs("nplurals=1; plural=0;"), n |-> 1] >>
Deliveries == IF Pool = "all" THEN [as : {"po", "mo"}, skip : 0..4, f : 1..3] ELSE [as : {"po", "mo"}, skip : {0, 2, 3}, f : {2}] \cup [as : {"po"}, skip : {1, 4}, f : {1, 3}]
(* skip: 0 all are translated, 1 none, 2 the first two are not, 3 all but the first form, 4 the first form only *)

Names2 == <<"a.tmpl", "b.tmpl">>
FileNodes(f) == Concat([i \in 1..Len(cur') |-> IF ((i + 1) % 2) + 1 = f THEN Items[cur'[i]] \o <<Text("\n")>> ELSE <<>>])
Case ==
  LET ws == TLCEval([f \in 1..2 |-> WalkAll(D0, FileNodes(f), Start, <<>>)])
      us == TLCEval(Concat([f \in 1..2 |-> UsesOf(Decls(Usual).kws, ws[f], f)]))
      es == TLCEval(Expected(us))
      done == IF del'.skip = 1 THEN <<>> ELSE IF del'.skip = 2 THEN From(es, 3) ELSE es
      ct == TLCEval(CatalogOf(done, Forms[del'.f].rule, Forms[del'.f].n, IF del'.skip = 3 THEN {1} ELSE IF del'.skip = 4 THEN {2, 3} ELSE {}))
  IN IF \E i \in 1..Len(es) : ~es[i].clear THEN TRUE ELSE
       CSVWrite("%1$s", <<ToJson([k |-> "chain", files |-> [f \in 1..2 |-> [name |-> Bs(Names2[f]), text |-> ws[f].text]], kw |-> Usual, as |-> del'.as,
         head |-> HeadOf(Forms[del'.f].rule), known |-> [i \in 1..Len(es) |-> [c |-> es[i].c, id |-> es[i].id]], tr |-> From(ct, 2),
         want |-> [f \in 1..2 |-> Rendered(ct, FileNodes(f))], src |-> [f \in 1..2 |-> Rendered(<<>>, FileNodes(f))]])>>, IOEnv.CASES)
Emit == Case
Init == cur = <<>> /\ del \in Deliveries
Next == /\ Len(cur) < MaxLen
        /\ \E i \in 1..Len(Items) : (IF Pool # "all" \/ cur = <<>> THEN TRUE ELSE cur[Len(cur)] <= i) /\ (\A k \in 1..Len(cur) : cur[k] # i) /\ cur' = Append(cur, i)
        /\ UNCHANGED del
----------------------------------------------------------------------------
(* properties of the specification, on templates of one construct: without a      *)
(* translation the templates write what they write in the source language, and    *)
(* with every message translated each construct that shows a message shows marks   *)
Mark == <<194, 171>>
Single(k) ==
  LET w == WalkAll(D0, Items[k], Start, <<>>)
      es == Expected(UsesOf(Decls(Usual).kws, w, 1))
      full == CatalogOf(es, Forms[2].rule, 3, {})
      none == CatalogOf(<<>>, Forms[2].rule, 3, {})
  IN /\ Rendered(none, Items[k]) = Rendered(<<>>, Items[k])
     /\ es # <<>> => IndexOf(Rendered(full, Items[k]), Mark) > 0
     /\ es = <<>> => Rendered(full, Items[k]) = Rendered(<<>>, Items[k])
Whole == Len(cur) = 1 => Single(cur[1])
=============================================================================
