----------------------------- MODULE ExtractGen -----------------------------
(* Templates for the extractor: pipelines, argument positions, constructs     *)
(* around calls, and uses spread over files.                                  *)
EXTENDS Extract, Json, CSV, IOUtils
CONSTANTS Mode, MaxLen, Pool
VARIABLES n, cur, aux
vars == <<n, cur, aux>>

Str(s) == Node("str", Bs(s), 0, <<>>)
Raw(s) == Node("str", Bs(s), 1, <<>>)
Esc(s) == Node("str", Bs(s), 2, <<>>)
Const(s) == Node("const", Bs(s), 0, <<>>)
Id(s) == Node("id", Bs(s), 0, <<>>)
Fld(s) == Node("field", Bs(s), 0, <<>>)
Var(s) == Node("var", Bs(s), 0, <<>>)
Cmd(os) == Node("cmd", <<>>, 0, os)
Pipe1(os) == Node("pipe", <<>>, 0, <<Cmd(os)>>)
PipeN(cs) == Node("pipe", <<>>, 0, [i \in 1..Len(cs) |-> Cmd(cs[i])])
Paren(p) == Node("paren", <<>>, 0, <<p>>)
Chain(p, s) == Node("chain", Bs(s), 0, <<p>>)
Act(p, y) == Node("act", <<>>, y, <<p>>)
Text(s) == Node("text", Bs(s), 0, <<>>)
List(ns) == Node("list", <<>>, 0, ns)
TCall(s) == Pipe1(<<Id("T"), Str(s)>>)

D0 == [l |-> Bs("{{"), r |-> Bs("}}")]
D1 == [l |-> Bs("[["), r |-> Bs("]]")]
D2 == [l |-> Bs("<%"), r |-> Bs("%>")]
Usual == Bs("T;N:1,2;X:1c,2;XN:1c,2,3")

File(name, text) == [name |-> Bs(name), text |-> text]
Case(files, d, kw, fn, us) == [k |-> "xt", files |-> files, l |-> d.l, r |-> d.r, kw |-> kw, fn |-> fn, exp |-> Expected(us)]
Put(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.CASES)
OneFile(nodes, d, kw) ==
  LET w == TLCEval(WalkAll(d, nodes, Start, <<>>))
  IN Put(Case(<<File("a.tmpl", w.text)>>, d, kw, <<>>, UsesOf(Decls(kw).kws, w, 1)))

(* pipelines --------------------------------------------------------------------*)
Operands == CASE Pool = "wide" -> { Str("a"), Raw("b\n\"q\""), Esc("c %d\\"), Const("1"), Const("."), Id("T"), Id("N"), Id("X"), Id("f"), Fld(".T"),
                                    Fld(".A.N"), Var("$.X"), Paren(TCall("z")), Paren(Pipe1(<<Str("p")>>)), Chain(TCall("y"), ".T"), Id("call") }
              [] Pool = "few" -> { Str("a"), Str("b"), Const("."), Id("T"), Id("N"), Id("call"), Fld(".X"), Paren(TCall("z")) }
              [] Pool = "fewer" -> { Str("a"), Id("T"), Fld(".N"), Paren(PipeN(<< <<Str("z")>>, <<Id("T")>> >>)) }
              [] OTHER -> {}
PipesNext ==
  \E o \in Operands :
    \/ /\ cur # <<>> /\ cur' = [cur EXCEPT ![Len(cur)] = Append(@, o)]
    \/ /\ (cur # <<>> => ~(o.t \in {"str", "const", "paren"}))          \* later stages have to be functions
       /\ cur' = Append(cur, <<o>>)

(* argument positions ---------------------------------------------------------------*)
KwSets == { Bs("T"), Bs("T:2"), Bs("T:3"), Bs("T:1,2"), Bs("T:2,1"), Bs("T:1,3"), Bs("T:4,2"), Bs("T:1c,2"), Bs("T:2c,1"), Bs("T:3c,1"), Bs("T:2c,4"),
            Bs("T:1c,2,3"), Bs("T:3c,2,1"), Bs("T:2c,3,1"), Bs("T:1c,3,4"), Bs("T:1;T:1,2"), Bs("T:2;T:1"), Bs("T:1c,2;T:1,2;N"), Bs("N;M:1,2") }
ArgPool == IF Pool = "four" THEN { Str("a"), Str("b %s"), Const("7"), Fld(".T") } ELSE { Str("a"), Str("b"), Const("true") }
Heads == { Id("T"), Fld(".T"), Var("$.A.T"), Chain(Pipe1(<<Fld(".A")>>), ".T") }
PosNext == \/ cur = <<>> /\ \E h \in Heads, k \in KwSets : cur' = <<h>> /\ aux' = k
           \/ cur # <<>> /\ \E a \in ArgPool : cur' = Append(cur, a) /\ aux' = aux
PosCases == /\ OneFile(<<Act(Pipe1(cur'), 0)>>, D0, aux')
            /\ n' % 2 = 0 => OneFile(<<Act(PipeN(<< <<Str("piped")>>, cur' >>), 0)>>, D0, aux')
            /\ n' % 2 = 1 => OneFile(<<Act(PipeN(<< <<Fld(".V")>>, cur' >>), 0)>>, D0, aux')

(* constructs ---------------------------------------------------------------------*)
(* aux = [d, top, names]: delimiters, whether only siblings may follow              *)
Lt(p) == IF n = 0 THEN p \o "0" ELSE IF n = 1 THEN p \o "1" ELSE IF n = 2 THEN p \o "2" ELSE p \o "3"
P(x) == TCall(Lt(x))
Cond == Pipe1(<<Fld(".C")>>)
WithVars(s, p) == [p EXCEPT !.s = Bs(s)]
Extra(x) == List(<<Text("\n"), Act(P(x), 0), Text("\n")>>)
Wrap(c, y, body) ==
  LET B == List(body)
  IN CASE c = "if" -> Node("if", <<>>, y, <<P("p"), B>>)
       [] c = "ifelse" -> Node("if", <<>>, y, <<Cond, Extra("q"), B>>)
       [] c = "elif" -> Node("if", <<>>, y, <<Cond, Extra("q"), Node("elif", <<>>, y, <<P("p"), B>>)>>)
       [] c = "elifelse" -> Node("if", <<>>, y, <<P("r"), Extra("q"), Node("elif", <<>>, y, <<P("p"), Extra("s"), B>>)>>)
       [] c = "range" -> Node("range", <<>>, y, <<WithVars("$i, $e := ", P("p")), B>>)
       [] c = "rangeelse" -> Node("range", <<>>, y, <<P("p"), Extra("q"), B>>)
       [] c = "rangebreak" -> Node("range", <<>>, y, <<Cond, List(<<Node("if", <<>>, 0, <<P("p"), List(<<Node("word", Bs("break"), 0, <<>>)>>),
                                  List(<<Node("word", Bs("continue"), 0, <<>>)>>)>>)>> \o body)>>)
       [] c = "with" -> Node("with", <<>>, y, <<WithVars("$w := ", P("p")), B>>)
       [] c = "withelse" -> Node("with", <<>>, y, <<P("p"), Extra("q"), B>>)
       [] c = "elwith" -> Node("with", <<>>, y, <<Cond, Extra("q"), Node("elwith", <<>>, y, <<P("p"), B>>)>>)
       [] c = "block" -> Node("block", Bs(Lt("blk")), y, <<P("p"), B>>)
       [] c = "define" -> Node("def", Bs(Lt("def")), y, <<B>>)
Wraps == {"if", "ifelse", "elif", "elifelse", "range", "rangeelse", "rangebreak", "with", "withelse", "elwith", "block"}
Siblings ==
  { Node("tmpl", Bs("x"), 0, <<P("t")>>), Node("tmpl", Bs("T \"x\""), 0, <<>>), Node("cmt", Bs(" T \"comment\" "), 3, <<>>),
    Text("T \"plain\" {{ \n\n"), Act(WithVars("$v := ", P("v")), 0), Act(PipeN(<< <<Str("pp")>>, <<Id("T")>> >>), 4),
    Act(Pipe1(<<Id("if2"), Paren(Pipe1(<<Id("printf"), Str("%s"), Paren(P("u"))>>))>>), 3), Act(Pipe1(<<Str("T")>>), 0),
    Act(Pipe1(<<Id("T"), Str("")>>), 0), Act(Pipe1(<<Id("TT"), Str("no")>>), 0), Act(Pipe1(<<Id("t"), Str("no")>>), 0) }
TextOK(d, x) == x.t = "text" => ~HasPrefix(d.l, Bs("{{"))
Styles == IF Pool = "styles" THEN 0..7 ELSE IF Pool = "few" THEN {0, 7} ELSE {0}
ConsInit == \E d \in {D0, D1, D2} : cur = <<Act(TCall("core"), 0)>> /\ aux = [d |-> d, top |-> FALSE]
ConsNext ==
  \/ ~aux.top /\ \E c \in Wraps, y \in Styles : cur' = <<Wrap(c, y, cur)>> /\ aux' = aux
  \/ ~aux.top /\ \E y \in Styles : cur' = <<Wrap("define", y, cur)>> /\ aux' = [aux EXCEPT !.top = TRUE]
  \/ \E x \in Siblings : TextOK(aux.d, x) /\ cur' = cur \o <<x>> /\ aux' = aux
  \/ \E x \in Siblings : TextOK(aux.d, x) /\ x.t \in {"cmt", "act"} /\ cur' = <<x, Text("\n")>> \o cur /\ aux' = aux

(* files ------------------------------------------------------------------------------*)
Names3 == <<"a10.tmpl", "a9.tmpl", "b.tmpl">>       \* in the order they are visited
Calls6 == { Pipe1(<<Id("T"), Str("a")>>), Pipe1(<<Id("N"), Str("a"), Str("as")>>), Pipe1(<<Fld(".X"), Str("c"), Str("a")>>),
            Pipe1(<<Id("XN"), Str("c"), Str("a"), Raw("as")>>), Pipe1(<<Id("N"), Raw("a"), Str("others %d")>>), Pipe1(<<Id("T"), Str("c")>>),
            Pipe1(<<Id("N"), Str(""), Str("as")>>) }
Calls2 == { Pipe1(<<Id("T"), Str("a")>>), Pipe1(<<Id("N"), Str("a"), Str("as")>>), Pipe1(<<Id("N"), Str("a"), Str("bs")>>) }
Where == IF Pool = "deep" THEN {<<1, 0>>, <<2, 0>>, <<2, 1>>} ELSE {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>}
FilesNext == \E c \in (IF Pool = "deep" THEN Calls2 ELSE Calls6), w \in Where : cur' = Append(cur, [call |-> c, f |-> w[1], def |-> w[2]]) /\ aux' = aux
FileNodes(f) ==
  LET mine == SelectSeq(cur', LAMBDA x : x.f = f)
      Nd(x) == <<Act(x.call, 0), Text("\n")>>
      dn(i) == IF i = 1 THEN "z" ELSE IF i = 2 THEN "y" ELSE IF i = 3 THEN "x" ELSE IF i = 4 THEN "w" ELSE "v"
  IN Concat([i \in 1..Len(mine) |-> IF mine[i].def = 1 THEN <<Node("def", Bs(dn(i)), 0, <<List(Nd(mine[i]))>>), Text("\n")>> ELSE Nd(mine[i])])
FilesCase ==
  LET ws == TLCEval([f \in 1..3 |-> WalkAll(D0, FileNodes(f), Start, <<>>)])
      us == TLCEval(Concat([f \in 1..3 |-> UsesOf(Decls(Usual).kws, ws[f], f)]))
      fn == IF n' % 2 = 1 THEN Bs("f, g,") ELSE <<>>
  IN Put(Case([f \in 1..3 |-> File(Names3[f], ws[f].text)], D0, Usual, fn, us))

Emit == CASE Mode = "pipes" -> OneFile(<<Act(PipeN(cur'), IF n' % 3 = 0 THEN 3 ELSE 0)>>, D0, Usual)
          [] Mode = "positions" -> PosCases
          [] Mode = "constructs" -> OneFile(cur', aux'.d, Usual)
          [] Mode = "files" -> FilesCase
Init == n = 0 /\ IF Mode = "constructs" THEN ConsInit ELSE cur = <<>> /\ aux = <<>>
Next == /\ n < MaxLen /\ n' = n + 1
        /\ CASE Mode = "pipes" -> PipesNext /\ aux' = aux
             [] Mode = "positions" -> PosNext
             [] Mode = "constructs" -> ConsNext
             [] Mode = "files" -> FilesNext
----------------------------------------------------------------------------
(* properties of the specification: an entry per context and message, every one  *)
(* of them used; comments, text and other names add nothing                       *)
Judged == IF Mode # "constructs" THEN <<>> ELSE Expected(UsesOf(Decls(Usual).kws, WalkAll(aux.d, cur, Start, <<>>), 1))
Sound == LET e == TLCEval(Judged)
         IN /\ Mode = "constructs" => \E i \in 1..Len(e) : e[i].id = Bs("core") /\ e[i].must
            /\ \A i \in 1..Len(e) : Len(e[i].occ) > 0 /\ ~(e[i].id \in {Bs("comment"), Bs("plain"), Bs("no"), Bs("x"), <<>>})
            /\ \A i, j \in 1..Len(e) : i # j => <<e[i].c, e[i].id>> # <<e[j].c, e[j].id>>
=============================================================================
