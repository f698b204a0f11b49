----------------------------- MODULE PluralDeep -----------------------------
(* C03, C04: expressions of every depth.  Families of rules that grow with d:  *)
(* nested parentheses, chains of conditions, of operators and of signs, blanks *)
(* and digits; whole ones (values) and broken ones (errors).  Up to FullUpTo    *)
(* the answers are those of the parser and evaluator machine; beyond, for       *)
(* parentheses alone, the closed form that the invariant ties to the machine.   *)
EXTENDS Plural, Json, CSV, IOUtils, FiniteSets
CONSTANTS Depths, Emits, HugeDepths
VARIABLES fam, d, huge
vars == <<fam, d, huge>>

N0 == Op("n")
RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<48 + k>> ELSE Append(DigitsOf(k \div 10), 48 + (k % 10))
Lit(k) == Num(DigitsOf(k))
Rep(F(_), k) == LET G(acc, i) == acc \o F(i) IN FoldLeft(G, <<>>, [i \in 1..k |-> i])
S1(x) == <<Op(x)>>

Values == {"paren", "right", "left", "minus", "chain", "middle", "signs", "nots", "ors", "ands", "lazy", "mixed", "blanks"}
Broken == {"open", "nooperand", "nocolon", "digits", "empty", "badend"}
Toks(f, k) ==
  CASE f = "paren"  -> Rep(LAMBDA i : S1("("), k) \o <<N0>> \o Rep(LAMBDA i : S1(")"), k)
    [] f = "right"  -> Rep(LAMBDA i : <<Op("("), N0, Op("-")>>, k) \o <<Lit(1)>> \o Rep(LAMBDA i : S1(")"), k)
    [] f = "left"   -> Rep(LAMBDA i : S1("("), k) \o <<N0>> \o Rep(LAMBDA i : <<Op("-"), Lit(i), Op(")")>>, k)
    [] f = "minus"  -> <<N0>> \o Rep(LAMBDA i : <<Op(IF i % 2 = 0 THEN "-" ELSE "+"), Lit(i)>>, k)
    [] f = "chain"  -> Rep(LAMBDA i : <<N0, Op("=="), Lit(i), Op("?"), Lit(i % 7), Op(":")>>, k) \o <<Lit(9)>>
    [] f = "middle" -> Rep(LAMBDA i : <<N0, Op("!="), Lit(i), Op("?")>>, k) \o <<Lit(0)>> \o Rep(LAMBDA i : <<Op(":"), Lit(i)>>, k)
    [] f = "signs"  -> Rep(LAMBDA i : <<Op("-"), Op("~")>>, k) \o <<N0>>
    [] f = "nots"   -> Rep(LAMBDA i : S1("!"), k) \o <<N0>>
    [] f = "ors"    -> Rep(LAMBDA i : <<N0, Op("=="), Lit(i), Op("||")>>, k) \o <<Lit(0)>>
    [] f = "ands"   -> Rep(LAMBDA i : <<N0, Op("!="), Lit(i), Op("&&")>>, k) \o <<Lit(1)>>
    [] f = "lazy"   -> Rep(LAMBDA i : <<N0, Op("%"), Lit(i + 1), Op("?"), Op("(")>>, k) \o <<Lit(5)>>
                       \o Rep(LAMBDA i : <<Op(")"), Op(":"), Lit(1), Op("/"), N0>>, k)
    [] f = "mixed"  -> Rep(LAMBDA i : <<Lit(i), Op(IF i % 3 = 0 THEN "*" ELSE "+"), Op("("), Op("!"), N0, Op("+")>>, k) \o <<N0>>
                       \o Rep(LAMBDA i : S1(")"), k)
    [] f = "blanks" -> <<N0, Op("!="), Lit(1), Op("&&"), N0, Op("%"), Lit(10), Op("!="), Lit(2)>>
    [] f = "open"   -> Rep(LAMBDA i : S1("("), k) \o <<N0>> \o Rep(LAMBDA i : S1(")"), k - 1)
    [] f = "nooperand" -> Rep(LAMBDA i : <<N0, Op("+")>>, k)
    [] f = "nocolon" -> Rep(LAMBDA i : <<N0, Op("?")>>, k) \o <<Lit(2)>> \o Rep(LAMBDA i : <<Op(":"), Lit(3)>>, k - 1)
    [] f = "digits" -> <<N0, Op("*"), Num([i \in 1..k |-> 49 + (i % 9)])>>
    [] f = "empty"  -> Rep(LAMBDA i : S1("("), k) \o Rep(LAMBDA i : S1(")"), k)
    [] f = "badend" -> Rep(LAMBDA i : <<N0, Op("||"), Op("(")>>, k) \o <<Op("*")>> \o Rep(LAMBDA i : S1(")"), k)
Families == IF Emits = "valid" THEN Values ELSE Broken

Blank(k) == [i \in 1..k |-> IF i % 5 = 0 THEN 9 ELSE 32]
Text(ts, f, k, loose) ==
  LET gap(i) == IF f = "blanks" THEN Blank(k) ELSE IF ~loose \/ i % 3 = 0 THEN <<>> ELSE <<32>>
      F(acc, i) == acc \o (IF i = 1 THEN <<>> ELSE gap(i)) \o TokBytes(ts[i])
  IN FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i])

Ns(k) == <<Zero, <<1>>, <<2>>, <<k>>, <<k + 1>>, <<k - 1>>, <<-3>>, Norm(<<255,255,255,255,255,255,255,127>>)>>
Show(v) == IF v = Undef THEN <<>> ELSE IF v = Err THEN <<0>> ELSE ToLimbs(v)
(* parentheses alone: beyond the machine's reach *)
Closed(f, n) == IF f = "paren" THEN n ELSE Err
HugeText(f, k) == [i \in 1..k |-> 40] \o <<110>> \o [i \in 1..(IF f = "paren" THEN k ELSE k - 1) |-> 41]

Emit ==
  IF huge'
  THEN CSVWrite("%1$s", <<ToJson([k |-> "plural", text |-> HugeText(fam', d'), loose |-> HugeText(fam', d'), ns |-> <<ToLimbs(<<7>>)>>,
                                   exp |-> <<Show(Closed(fam', <<7>>))>>, dev |-> <<Show(Closed(fam', <<7>>))>>, slow |-> TRUE])>>, IOEnv.CASES)
  ELSE LET ts == TLCEval(Toks(fam', d'))
           st == TLCEval(ParseToks(ts, FALSE))
           sd == TLCEval(ParseToks(ts, TRUE))
           ns == Ns(d')
       IN CSVWrite("%1$s", <<ToJson([k |-> "plural", text |-> Text(ts, fam', d', FALSE), loose |-> Text(ts, fam', d', TRUE),
                                      ns |-> [i \in 1..Len(ns) |-> ToLimbs(ns[i])],
                                      exp |-> [i \in 1..Len(ns) |-> Show(RuleToks(ts, ns[i]))],
                                      dev |-> [i \in 1..Len(ns) |-> Show(BuiltToks(ts, ns[i]))], slow |-> FALSE])>>, IOEnv.CASES)
Init == fam = "start" /\ d = 0 /\ huge = FALSE
Next == /\ fam = "start"
        /\ \/ huge' = FALSE /\ fam' \in Families /\ d' \in Depths
           \/ huge' = TRUE /\ fam' \in (IF Emits = "valid" THEN {} ELSE {"paren", "open"}) /\ d' \in HugeDepths
(* the closed form is the machine's answer, whole texts are whole and broken ones are not *)
DeepOK == (fam # "start" /\ ~huge) =>
            LET ts == TLCEval(Toks(fam, d))
            IN /\ Lex(Text(ts, fam, d, FALSE)) = [LexInit EXCEPT !.toks = ts]
               /\ Lex(Text(ts, fam, d, TRUE)) = [LexInit EXCEPT !.toks = ts]
               /\ (fam \in Values \cup {"digits"}) <=> Complete(ParseToks(ts, FALSE))
               /\ (fam \in {"paren", "open"}) =>
                    /\ Text(ts, fam, d, FALSE) = HugeText(fam, d)
                    /\ \A i \in 1..8 : RuleToks(ts, Ns(d)[i]) = Closed(fam, Ns(d)[i])
=============================================================================
