------------------------------ MODULE PluralGen ------------------------------
(***************************************************************************)
(* Enumerates plural expressions token by token with the parser machine of *)
(* Plural and emits every text reached together with the answers the       *)
(* specification demands.                                                  *)
(***************************************************************************)
EXTENDS Plural, Json, CSV, IOUtils, FiniteSets

CONSTANTS Atoms,        \* operand tokens
          Binary,       \* set of binary operators (and "?") used
          Prefix,       \* prefix operators used
          MaxLen,       \* longest token list
          BadLen,       \* tokens that break the expression are tried up to this length
          Parens,       \* use parentheses
          Shapes,       \* shapes the expressions have to have, {} for any
          Emits         \* "valid": complete expressions, "malformed": all others, "all"

(* operand tokens for the configurations *)
AtomsFew  == {Op("n"), Num(<<50>>)}
AtomsMany == {Op("n"), Num(<<48>>), Num(<<49>>), Num(<<49, 48>>)}
AtomsAll  == {Op("n"), Num(<<48>>), Num(<<49, 48, 48>>), Num(<<52,50,57,52,57,54,55,50,57,54>>),
              Num(<<57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57>>)}
AtomsShift == {Op("n"), Num(<<49>>), Num(<<51,49>>), Num(<<51,50>>), Num(<<51,51>>), Num(<<54,50>>), Num(<<54,51>>)}
AtomsWide  == {Op("n"), Num(<<51>>), Num(<<50,49,52,55,52,56,51,54,52,56>>), Num(<<52,50,57,52,57,54,55,50,57,55>>),
               Num(<<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>)}
AllBinary == BinOps \cup {"?"}
AllPrefix == {"+", "-", "~", "!"}
PlusPlus  == AllPrefix \cup {"++", "--"}

(* shapes: "a" an operand, "b" a binary operator, others stand for themselves  *)
NoShape == {}
ShapesNested == { <<"a", "b", "(", "a", "b", "a", ")">>, <<"(", "a", "b", "a", ")", "b", "a">>, <<"-", "(", "a", "b", "a", ")">>,
                  <<"a", "-", "(", "!", "(", "a", "b", "a", ")", ")">>, <<"a", "-", "(", "a", "?", "a", "b", "a", ":", "a", ")">> }
Fits(ts) == Shapes = {} \/ \E s \in Shapes : Len(ts) <= Len(s) /\ \A i \in 1..Len(ts) :
              IF s[i] = "a" THEN ts[i] \in Atoms ELSE IF s[i] = "b" THEN ts[i] \in {Op(x) : x \in Binary \ {"?"}} ELSE ts[i] = Op(s[i])
Whole(ts) == Shapes = {} \/ \E s \in Shapes : Len(ts) = Len(s)

VARIABLES toks, st
vars == <<toks, st>>

Out == IOEnv.CASES

Sym(x) == Op(x)
Alphabet == Atoms \cup {Sym(x) : x \in Binary \cup Prefix}
            \cup (IF "?" \in Binary THEN {Sym(":")} ELSE {})
            \cup (IF Parens THEN {Sym("("), Sym(")")} ELSE {})

Ns == << <<0>>, <<1>>, <<2>>, <<5>>, <<-3>>, <<11>>, Norm(<<255,255,255,255,255,255,255,127>>),
         Norm(<<7,0,0,128,1,0,0,0>>) >>

(* text with blanks everywhere, and as tight as the lexer allows *)
First(t) == TokBytes(t)[1]
Glue(a, b) == (* would the two tokens lex differently when adjacent? *)
  LET l == Lex(TokBytes(a) \o TokBytes(b)) IN l.bad \/ l.toks # <<a, b>>
Tight(ts) ==
  LET F(acc, i) == acc \o (IF i > 1 /\ Glue(ts[i - 1], ts[i]) THEN <<32>> ELSE <<>>) \o TokBytes(ts[i])
  IN FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i])
Loose(ts) ==
  LET F(acc, i) == acc \o (IF i % 3 = 0 THEN <<32, 9>> ELSE <<32>>) \o TokBytes(ts[i])
  IN Append(FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i]), 32)

Show(v) == IF v = Undef THEN <<>> ELSE IF v = Err THEN <<0>> ELSE ToLimbs(v)
Differs(ts) == \E i \in 1..Len(Ns) : BuiltToks(ts, Ns[i]) # RuleToks(ts, Ns[i])
Case(ts) ==
  [k |-> "plural", text |-> Tight(ts), loose |-> Loose(ts),
   ns  |-> [i \in 1..Len(Ns) |-> ToLimbs(Ns[i])],
   exp |-> [i \in 1..Len(Ns) |-> Show(RuleToks(ts, Ns[i]))],
   dev |-> [i \in 1..Len(Ns) |-> Show(BuiltToks(ts, Ns[i]))]]
Wanted == Whole(toks') /\ (Emits = "all" \/ (Emits = "valid") = Complete(st'))
Emit == IF Wanted THEN CSVWrite("%1$s", <<ToJson(Case(toks'))>>, Out) ELSE TRUE

Init == toks = <<>> /\ st = ParseInit
Push(t) == /\ Len(toks) < MaxLen
           /\ ~st.bad
           /\ Fits(Append(toks, t))
           /\ toks' = Append(toks, t)
           /\ st' = Step(st, t, FALSE)
           /\ st'.bad => Len(toks') <= BadLen
Next == \E t \in Alphabet : Push(t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification itself *)
MachineOK ==                       \* stacks always fit together
  ~st.bad => LET arity(op) == IF op \in Unary \cup {"(", "?"} THEN 0 ELSE IF op = "?:" THEN 2 ELSE 1
                 pend == FoldLeft(LAMBDA a, op : a + arity(op) + (IF op = "?" THEN 1 ELSE 0), 0, st.ops)
             IN Len(st.out) = pend + (IF st.mode = "operator" THEN 1 ELSE 0)
LexOK ==                           \* blanks do not matter, tokens come back
  toks # <<>> => /\ Lex(Tight(toks)) = [LexInit EXCEPT !.toks = toks]
                 /\ Lex(Loose(toks)) = [LexInit EXCEPT !.toks = toks]
LogicOK ==                         \* logical results are 0 or 1
  Complete(st) => LET e == Finish(st, FALSE).out[1]
                  IN e[1] \in {"&&", "||", "u!", "==", "!=", "<", ">", "<=", ">="}
                     => \A i \in 1..Len(Ns) : LET v == Eval(e, Ns[i], FALSE) IN NoValue(v) \/ v \in {Zero, One}
=============================================================================
