-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* C21: the input pattern of an extraction run.  A pattern is a path whose    *)
(* components may hold * ? [..] and escapes; a component that is malformed    *)
(* makes the whole pattern invalid, wherever it stands.  The pattern grows     *)
(* symbol by symbol under a scanner (sc); its meaning is stated over the       *)
(* parsed components and a tree of files.  Symbols are code points.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS Mode, MaxLen, Alphabet
VARIABLES pat, sc
vars == <<pat, sc>>

Star == 42  Quest == 63  Open == 91  Close == 93  Hat == 94  Dash == 45  Back == 92  Slash == 47  Dot == 46
SA == 97  SB == 98
F(p) == [p |-> p, d |-> FALSE]
D(p) == [p |-> p, d |-> TRUE]
Tree == << F(<< <<SA>> >>), F(<< <<SB>> >>), F(<< <<SA, SB>> >>), F(<< <<Dot, SA>> >>), F(<< <<Dash>> >>), F(<< <<Hat>> >>), F(<< <<Close>> >>),
           F(<< <<Open>> >>), F(<< <<Back>> >>), F(<< <<Star>> >>), F(<< <<233>> >>), F(<< <<SA, Dot, SB>> >>), F(<< <<SA, Close>> >>),
           D(<< <<SB, SB>> >>), F(<< <<SB, SB>>, <<SA>> >>), F(<< <<SB, SB>>, <<SA, SB>> >>), D(<< <<SB, SB>>, <<SA, SA>> >>),
           F(<< <<SB, SB>>, <<SA, SA>>, <<SB>> >>), D(<< <<SB, SA>> >>) >>
Nodes == 1..Len(Tree)
IsDir(p) == p = <<>> \/ \E i \in Nodes : Tree[i].d /\ Tree[i].p = p
IsThere(p) == p = <<>> \/ \E i \in Nodes : Tree[i].p = p
Listing(p) == {Tree[i].p[Len(p) + 1] : i \in {j \in Nodes : Len(Tree[j].p) = Len(p) + 1 /\ SubSeq(Tree[j].p, 1, Len(p)) = p}}
----------------------------------------------------------------------------
(* one component, declaratively: a sequence of items, or malformed *)
Wrong == [ok |-> FALSE, it |-> <<>>]
(* one side of a range, from position i: [c, next], or next = 0 *)
Side(p, i) == IF i > Len(p) THEN [c |-> 0, next |-> 0]
              ELSE IF p[i] \in {Dash, Close} THEN [c |-> 0, next |-> 0]
              ELSE IF p[i] # Back THEN [c |-> p[i], next |-> i + 1]
              ELSE IF i = Len(p) THEN [c |-> 0, next |-> 0] ELSE [c |-> p[i + 1], next |-> i + 2]
RECURSIVE Ranges(_, _, _)
Ranges(p, i, rs) ==        \* [rs, next]
  IF i <= Len(p) /\ (IF i <= Len(p) THEN p[i] = Close ELSE FALSE) /\ rs # <<>> THEN [rs |-> rs, next |-> i + 1]
  ELSE LET lo == Side(p, i)
       IN IF lo.next = 0 THEN [rs |-> rs, next |-> 0]
          ELSE IF lo.next > Len(p) THEN [rs |-> rs, next |-> 0]
          ELSE IF p[lo.next] # Dash THEN Ranges(p, lo.next, Append(rs, <<lo.c, lo.c>>))
          ELSE LET hi == Side(p, lo.next + 1)
               IN IF hi.next = 0 THEN [rs |-> rs, next |-> 0] ELSE Ranges(p, hi.next, Append(rs, <<lo.c, hi.c>>))
RECURSIVE Items(_, _, _)
Items(p, i, acc) ==
  IF i > Len(p) THEN [ok |-> TRUE, it |-> acc]
  ELSE IF p[i] = Star THEN Items(p, i + 1, Append(acc, [k |-> "star"]))
  ELSE IF p[i] = Quest THEN Items(p, i + 1, Append(acc, [k |-> "one"]))
  ELSE IF p[i] = Back THEN IF i = Len(p) THEN Wrong ELSE Items(p, i + 2, Append(acc, [k |-> "lit", c |-> p[i + 1]]))
  ELSE IF p[i] = Open
       THEN LET neg == IF i < Len(p) THEN p[i + 1] = Hat ELSE FALSE
                r == Ranges(p, IF neg THEN i + 2 ELSE i + 1, <<>>)
            IN IF r.next = 0 THEN Wrong ELSE Items(p, r.next, Append(acc, [k |-> "class", neg |-> neg, rs |-> r.rs]))
  ELSE Items(p, i + 1, Append(acc, [k |-> "lit", c |-> p[i]]))
Component(p) == Items(p, 1, <<>>)
Fits(x, c) == CASE x.k = "one" -> TRUE
                [] x.k = "lit" -> x.c = c
                [] x.k = "class" -> x.neg # (\E i \in 1..Len(x.rs) : x.rs[i][1] <= c /\ c <= x.rs[i][2])
RECURSIVE Matches(_, _)
Matches(it, name) ==
  IF it = <<>> THEN name = <<>>
  ELSE IF it[1].k = "star" THEN \E k \in 0..Len(name) : Matches(Tail(it), SubSeq(name, k + 1, Len(name)))
  ELSE IF name = <<>> THEN FALSE ELSE Fits(it[1], name[1]) /\ Matches(Tail(it), Tail(name))
HasMeta(p) == \E i \in 1..Len(p) : p[i] \in {Star, Quest, Open, Back}
----------------------------------------------------------------------------
(* the whole pattern *)
Comps(p) == FoldLeft(LAMBDA acc, c : IF c = Slash THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, p)
Valid(cs) == \A i \in 1..Len(cs) : Component(cs[i]).ok
(* walking plain components from the root; "" when there is no such place, "out" when it leaves the tree *)
Walk(cs) == FoldLeft(LAMBDA at, c : IF at.st # "ok" THEN at
                       ELSE IF ~IsDir(at.p) THEN [at EXCEPT !.st = "none"]
                       ELSE IF c \in {<<>>, <<Dot>>} THEN at
                       ELSE IF c = <<Dot, Dot>> THEN IF at.p = <<>> THEN [at EXCEPT !.st = "out"] ELSE [at EXCEPT !.p = SubSeq(@, 1, Len(@) - 1)]
                       ELSE IF IsThere(Append(at.p, c)) THEN [at EXCEPT !.p = Append(@, c)] ELSE [at EXCEPT !.st = "none"],
                     [st |-> "ok", p |-> <<>>], cs)
FirstMeta(cs) == LET m == {i \in 1..Len(cs) : HasMeta(cs[i])} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
Base(cs) == LET k == FirstMeta(cs) IN IF k = 0 THEN cs ELSE SubSeq(cs, 1, k - 1)
RECURSIVE Expand(_, _)
Expand(ps, cs) == IF cs = <<>> THEN ps
                  ELSE LET it == TLCEval(Component(cs[1]).it)
                       IN Expand(UNION {{Append(p, n) : n \in {m \in Listing(p) : Matches(it, m)}} : p \in {q \in ps : IsDir(q)}}, Tail(cs))
Named(cs) == LET w == Walk(Base(cs)) k == FirstMeta(cs)
             IN IF w.st # "ok" THEN {} ELSE IF k = 0 THEN {w.p} ELSE Expand({w.p}, SubSeq(cs, k, Len(cs)))
Answer(p) == LET cs == TLCEval(Comps(p))
                 v == TLCEval(Valid(cs))
                 n == TLCEval(IF v THEN Named(cs) ELSE {})
             IN [valid |-> v, good |-> SetToSeq({x \in n : ~IsDir(x)}), bad |-> SetToSeq({x \in n : IsDir(x)})]
Leaves(p) == Walk(Base(Comps(p))).st = "out"
----------------------------------------------------------------------------
(* the scanner: what is open after the symbols so far *)
Scan(s, c) ==
  CASE s \in {"bad"} -> "bad"
    [] s = "esc" -> IF c = Slash THEN "bad" ELSE "out"
    [] s = "out" -> IF c = Back THEN "esc" ELSE IF c = Open THEN "open" ELSE "out"
    [] c = Slash -> "bad"
    [] s = "open" -> IF c = Hat THEN "first" ELSE IF c \in {Dash, Close} THEN "bad" ELSE IF c = Back THEN "loesc" ELSE "lo"
    [] s = "first" -> IF c \in {Dash, Close} THEN "bad" ELSE IF c = Back THEN "loesc" ELSE "lo"
    [] s = "loesc" -> "lo"
    [] s = "lo" -> IF c = Dash THEN "dash" ELSE IF c = Close THEN "out" ELSE IF c = Back THEN "loesc" ELSE "lo"
    [] s = "dash" -> IF c \in {Dash, Close} THEN "bad" ELSE IF c = Back THEN "hiesc" ELSE "hi"
    [] s = "hiesc" -> "hi"
    [] s = "hi" -> IF c = Close THEN "out" ELSE IF c = Dash THEN "bad" ELSE IF c = Back THEN "loesc" ELSE "lo"
Pool == << <<SA>>, <<SB, SB>>, <<SA, SA>>, <<Star>>, <<Quest>>, <<Quest, Quest>>, <<SA, Star>>, <<Open, SA, Dash, SB, Close>>, <<Open, Hat, SA, Close, Star>>,
           <<Open, SA, SB, Close, Quest>>, <<Back, SB, SB>>, <<Back, Star>>, <<>>, <<Dot>>, <<Dot, Dot>>, <<Open>>, <<Open, Close>>, <<Open, SA>>, <<SA, Back>>,
           <<Open, SA, Dash, Close>>, <<Open, Dash, SA, Close>>, <<Open, Hat, Close>>, <<SB, Close>>, <<Star, Star>>, <<Star, Open, SB, Close>>,
           <<Open, SB, Dash, SA, Close>>, <<Star, Open>> >>
Init == pat = <<>> /\ sc = "out"
AddSym == Mode = "symbols" /\ Len(pat) < MaxLen /\ \E c \in Alphabet : pat' = Append(pat, c) /\ sc' = Scan(sc, c)
AddComp == /\ Mode = "components" /\ Cardinality({i \in 1..Len(pat) : pat[i] = Slash}) < MaxLen - 1
           /\ \E i \in 1..Len(Pool) : /\ pat' = (IF pat = <<>> THEN Pool[i] ELSE Append(pat, Slash) \o Pool[i])
                                      /\ sc' = FoldLeft(Scan, sc, SubSeq(pat', Len(pat) + 1, Len(pat')))
Next == AddSym \/ AddComp
Emit == Leaves(pat') \/ CSVWrite("%1$s", <<ToJson([k |-> "glob", pat |-> pat', tree |-> Tree, want |-> Answer(pat')])>>, IOEnv.CASES)
ScanAgrees == Valid(Comps(pat)) <=> sc = "out"
PlainNamesItself == LET cs == Comps(pat) IN (FirstMeta(cs) = 0) => (Cardinality(Named(cs)) <= 1)
StarNamesAll == pat = <<Star>> => Named(Comps(pat)) = {<<n>> : n \in Listing(<<>>)}
=============================================================================
