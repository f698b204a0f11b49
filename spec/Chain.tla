------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The whole way of a message: templates are extracted, the template file is  *)
(* translated, saved, loaded and bound, and the templates are executed with   *)
(* the lookups of an instance.  Exec says what executing a template writes,    *)
(* given the catalog (Catalog's lookups, Format's formatting); Extract says    *)
(* which messages the translator gets to see.                                  *)
(* Values are [t, v] as Format's arguments; the environment is [dot, vars],     *)
(* data the fields every template is executed with.                            *)
(***************************************************************************)
EXTENDS Extract
Ct == INSTANCE Catalog

Fmt(m, args) == Ct!Formatted(m, args)[1]
Str8(b) == [t |-> "string", v |-> b]
Num8(b) == [t |-> "int", v |-> b]
Data == << <<Bs(".V"), Str8(Bs("a"))>>, <<Bs(".No"), Str8(<<>>)>>, <<Bs("$.V"), Str8(Bs("a"))>> >>
Bound(env, name) == SelectSeq(env.vars, LAMBDA x : x[1] = name)
Env(dot) == [dot |-> dot, vars |-> <<>>]

Lookups == {Bs("T"), Bs("N"), Bs("X"), Bs("XN")}
Ask(ct, name, vs) ==
  LET V(i) == vs[i].v
  IN CASE name = Bs("T") -> Fmt(Ct!PickX(ct, <<>>, V(1)), From(vs, 2))
       [] name = Bs("X") -> Fmt(Ct!PickX(ct, V(1), V(2)), From(vs, 3))
       [] name = Bs("N") -> Fmt(Ct!PickXN(ct, <<>>, V(1), V(2), <<V(3)[1] - 48>>)[1], From(vs, 4))
       [] name = Bs("XN") -> Fmt(Ct!PickXN(ct, V(1), V(2), V(3), <<V(4)[1] - 48>>)[1], From(vs, 5))

RECURSIVE Eval(_, _, _), EvalPipe(_, _, _)
EvalCmd(ct, c, piped, env) ==
  LET head == IF c.k[1].t = "id" /\ c.k[1].s = CallWord THEN 2 ELSE 1
      vs == TLCEval([i \in 1..Len(c.k) - head |-> Eval(ct, c.k[i + head], env)] \o piped)
  IN IF Callee(c.k[head]) \in Lookups THEN Str8(Ask(ct, Callee(c.k[head]), vs))
     ELSE IF c.k[head].t = "id" THEN Str8(Fmt(vs[1].v, From(vs, 2)))          \* printf
     ELSE Eval(ct, c.k[1], env)
EvalPipe(ct, p, env) ==
  FoldLeft(LAMBDA a, c : <<TLCEval(EvalCmd(ct, c, a, env))>>, <<>>, p.k)[1]
Eval(ct, o, env) ==
  CASE o.t = "str" -> Str8(o.s)
    [] o.t = "const" -> IF o.s = <<46>> THEN env.dot ELSE Num8(o.s)
    [] o.t = "paren" -> EvalPipe(ct, o.k[1], env)
    [] o.t \in {"field", "var"} -> IF Bound(env, o.s) # <<>> THEN Bound(env, o.s)[1][2]
                                   ELSE SelectSeq(Data, LAMBDA x : x[1] = o.s)[1][2]

(* what executing nodes writes; defs are the templates that are defined          *)
VarOf(p) == IF p.s = <<>> THEN <<>> ELSE <<SubSeq(p.s, 1, IndexOf(p.s, <<32>>) - 1)>>
Declare(p, v, env) == IF VarOf(p) = <<>> THEN env ELSE [env EXCEPT !.vars = Append(@, <<VarOf(p)[1], v>>)]
Elements == <<Str8(Bs("p")), Str8(Bs("q"))>>       \* of .L
RECURSIVE Exec(_, _, _, _), ExecAll(_, _, _, _)
ExecAll(ct, ns, env, defs) ==      \* declarations hold for the nodes that follow
  LET step(a, n) ==
        IF n.t = "act" /\ n.k[1].s # <<>> THEN [a EXCEPT !.env = Declare(n.k[1], EvalPipe(ct, n.k[1], a.env), a.env)]
        ELSE [a EXCEPT !.out = @ \o TLCEval(Exec(ct, n, a.env, defs))]
  IN FoldLeft(step, [out |-> <<>>, env |-> env], ns).out
DefOf(defs, name) == SelectSeq(defs, LAMBDA d : d.s = name)[1]
Exec(ct, n, env, defs) ==
  CASE n.t = "text" -> n.s
    [] n.t \in {"cmt", "def"} -> <<>>
    [] n.t = "act" -> EvalPipe(ct, n.k[1], env).v
    [] n.t = "list" -> ExecAll(ct, n.k, env, defs)
    [] n.t \in {"if", "elif"} ->
         LET v == EvalPipe(ct, n.k[1], env)
         IN IF v.v # <<>> THEN Exec(ct, n.k[2], Declare(n.k[1], v, env), defs) ELSE IF Len(n.k) > 2 THEN Exec(ct, n.k[3], env, defs) ELSE <<>>
    [] n.t = "with" ->
         LET v == EvalPipe(ct, n.k[1], env)
         IN IF v.v # <<>> THEN Exec(ct, n.k[2], Declare(n.k[1], v, [env EXCEPT !.dot = v]), defs)
            ELSE IF Len(n.k) > 2 THEN Exec(ct, n.k[3], env, defs) ELSE <<>>
    [] n.t = "range" -> Concat([i \in 1..Len(Elements) |-> Exec(ct, n.k[2], [env EXCEPT !.dot = Elements[i]], defs)])    \* over .L
    [] n.t = "block" -> Exec(ct, n.k[2], Env(EvalPipe(ct, n.k[1], env)), defs)
    [] n.t = "tmpl" -> Exec(ct, DefOf(defs, n.s).k[1], Env(IF n.k = <<>> THEN Str8(<<>>) ELSE EvalPipe(ct, n.k[1], env)), defs)
DefsOf(ns) == SelectSeq(ns, LAMBDA n : n.t = "def")
Rendered(ct, ns) == ExecAll(ct, ns, Env(Str8(<<>>)), DefsOf(ns))

(* the translator: marks every message; forms by number --------------------------*)
Msg(e, s, n) == [c |-> e.c, id |-> e.id, pl |-> e.pl, id2 |-> IF e.pl THEN e.id2s[1] ELSE <<>>, s |-> s, n |-> n]
Marked(e, k) == <<194, 171>> \o e.c \o <<124>> \o (IF k = 1 THEN e.id ELSE IF e.pl THEN e.id2s[1] ELSE e.id) \o <<48 + k, 194, 187>>
TranslationOf(e, forms, gaps) ==     \* gaps: form numbers left empty
  IF e.pl THEN Msg(e, <<>>, [k \in 1..forms |-> IF k \in gaps THEN <<>> ELSE Marked(e, k)]) ELSE Msg(e, Marked(e, 0), <<>>)
HeadOf(rule) == Bs("Language: de\nPlural-Forms: ") \o rule \o Bs("\n")
CatalogOf(es, rule, forms, gaps) ==
  <<[c |-> <<>>, id |-> <<>>, pl |-> FALSE, id2 |-> <<>>, s |-> HeadOf(rule), n |-> <<>>]>> \o [i \in 1..Len(es) |-> TranslationOf(es[i], forms, gaps)]
=============================================================================
