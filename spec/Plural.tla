------------------------------- MODULE Plural -------------------------------
(***************************************************************************)
(* The plural expression language: lexer, parser and evaluator.            *)
(*                                                                         *)
(* The parser is a state machine (Step) that consumes one token at a time  *)
(* and keeps an operand stack and an operator stack; Finish closes it.     *)
(* `dev` selects between the C rules (FALSE) and the rules as built (TRUE),*)
(* which differ in the recorded findings:                                  *)
(*   - as built, > and < bind tighter than >= and <=                       *)
(*   - as built, ^ computes the bitwise AND                                *)
(*   - as built, tokens after a complete expression are ignored            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Int64

Err == <<0, 0>>                 \* evaluation reports an error
                                \* Undef: the answer is unspecified (but no panic)

----------------------------------------------------------------------------
(* Lexer: bytes to tokens.  A token is [k |-> kind, v |-> digits]           *)

OpBytes ==
  [ x \in {"++","--","+","-","~","!","*","/","%",">>","<<",">","<",">=","<=",
           "==","!=","&","^","|","&&","||","?",":","(",")","n"} |->
    CASE x = "++" -> <<43,43>> [] x = "--" -> <<45,45>> [] x = "+" -> <<43>>
      [] x = "-" -> <<45>> [] x = "~" -> <<126>> [] x = "!" -> <<33>>
      [] x = "*" -> <<42>> [] x = "/" -> <<47>> [] x = "%" -> <<37>>
      [] x = ">>" -> <<62,62>> [] x = "<<" -> <<60,60>> [] x = ">" -> <<62>>
      [] x = "<" -> <<60>> [] x = ">=" -> <<62,61>> [] x = "<=" -> <<60,61>>
      [] x = "==" -> <<61,61>> [] x = "!=" -> <<33,61>> [] x = "&" -> <<38>>
      [] x = "^" -> <<94>> [] x = "|" -> <<124>> [] x = "&&" -> <<38,38>>
      [] x = "||" -> <<124,124>> [] x = "?" -> <<63>> [] x = ":" -> <<58>>
      [] x = "(" -> <<40>> [] x = ")" -> <<41>> [] x = "n" -> <<110>> ]
OpKinds == DOMAIN OpBytes
Op(k) == [k |-> k, v |-> <<>>]
Num(ds) == [k |-> "num", v |-> ds]
TokBytes(t) == IF t.k = "num" THEN t.v ELSE OpBytes[t.k]

IsDigit(c) == c >= 48 /\ c <= 57
IsBlank(c) == c = 32 \/ c = 9

(* lexer state: [toks, dig: digits of the number being read, pend: first    *)
(* byte of a possible two-byte operator (0 none), bad]                      *)
TwoByte == {<<43,43>>, <<45,45>>, <<62,62>>, <<60,60>>, <<62,61>>, <<60,61>>,
            <<61,61>>, <<33,61>>, <<38,38>>, <<124,124>>}
KindOf(bs) == IF \E k \in OpKinds : OpBytes[k] = bs
              THEN CHOOSE k \in OpKinds : OpBytes[k] = bs ELSE "bad"
LexInit == [toks |-> <<>>, dig |-> <<>>, pend |-> 0, bad |-> FALSE]
LexFlush(s) ==
  IF s.dig # <<>> THEN [s EXCEPT !.toks = Append(@, Num(s.dig)), !.dig = <<>>]
  ELSE IF s.pend # 0
       THEN IF KindOf(<<s.pend>>) = "bad" THEN [s EXCEPT !.bad = TRUE, !.pend = 0]
            ELSE [s EXCEPT !.toks = Append(@, Op(KindOf(<<s.pend>>))), !.pend = 0]
       ELSE s
LexByte(s, c) ==
  IF s.bad THEN s
  ELSE IF IsDigit(c)
       THEN LET f == IF s.pend # 0 THEN LexFlush(s) ELSE s
            IN [f EXCEPT !.dig = Append(@, c)]
  ELSE IF IsBlank(c) THEN LexFlush(s)
  ELSE IF s.pend # 0 /\ <<s.pend, c>> \in TwoByte
       THEN [s EXCEPT !.toks = Append(@, Op(KindOf(<<s.pend, c>>))), !.pend = 0]
  ELSE LET f == LexFlush(s)
       IN IF c \in {43, 45, 62, 60, 61, 33, 38, 124} THEN [f EXCEPT !.pend = c]
          ELSE IF KindOf(<<c>>) = "bad" THEN [f EXCEPT !.bad = TRUE]
          ELSE [f EXCEPT !.toks = Append(@, Op(KindOf(<<c>>)))]
Lex(bytes) == LexFlush(FoldLeft(LexByte, LexInit, bytes))

----------------------------------------------------------------------------
(* Parser                                                                   *)

Prec(op, dev) ==
  CASE op \in {"*", "/", "%"} -> 11
    [] op \in {"+", "-"} -> 10
    [] op \in {">>", "<<"} -> 9
    [] op \in {">", "<"} -> 8
    [] op \in {">=", "<="} -> IF dev THEN 7 ELSE 8
    [] op \in {"==", "!="} -> 6
    [] op = "&" -> 5
    [] op = "^" -> 4
    [] op = "|" -> 3
    [] op = "&&" -> 2
    [] op = "||" -> 1
    [] op = "?:" -> 0
    [] OTHER -> -1               \* markers "(" and "?"
BinOps == {"*","/","%","+","-",">>","<<",">","<",">=","<=","==","!=","&","^","|","&&","||"}
Unary == {"u+", "u-", "u~", "u!", "u++", "u--"}

(* tail: tokens followed a complete expression, out holds its value          *)
(* ext : ++ or -- was used, which has no C meaning on rvalues                *)
ParseInit == [out |-> <<>>, ops |-> <<>>, mode |-> "operand", bad |-> FALSE,
              tail |-> FALSE, ext |-> FALSE]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Reduce1(st) ==                   \* apply the operator on top of the stack
  LET op == Top(st.ops) o == st.out n == Len(o)
  IN IF op \in Unary
     THEN [st EXCEPT !.ops = Pop(@), !.out = Append(Pop(o), <<op, o[n]>>)]
     ELSE IF op = "?:"
     THEN [st EXCEPT !.ops = Pop(@),
             !.out = Append(SubSeq(o, 1, n - 3), <<"?:", o[n - 2], o[n - 1], o[n]>>)]
     ELSE [st EXCEPT !.ops = Pop(@),
             !.out = Append(SubSeq(o, 1, n - 2), <<op, o[n - 1], o[n]>>)]
RECURSIVE ReduceWhile(_, _, _)
ReduceWhile(st, p, dev) ==       \* reduce operators of precedence >= p
  IF st.ops = <<>> \/ Top(st.ops) \in {"(", "?"} THEN st
  ELSE IF Top(st.ops) \in Unary \/ Prec(Top(st.ops), dev) >= p
       THEN ReduceWhile(TLCEval(Reduce1(st)), p, dev)
       ELSE st
OpenIn(st) == \E i \in 1..Len(st.ops) : st.ops[i] \in {"(", "?"}

Step(st, tok, dev) ==
  LET k == tok.k
      Bad == [st EXCEPT !.bad = TRUE]
      (* a token that cannot continue a complete expression *)
      Trailing == IF OpenIn(st) THEN Bad
              ELSE [ReduceWhile(st, 0, dev) EXCEPT !.bad = TRUE, !.tail = TRUE]
  IN
  IF st.bad THEN st
  ELSE IF st.mode = "operand" THEN
    CASE k = "num" -> [st EXCEPT !.out = Append(@, <<"num", Parse(tok.v), tok.v>>), !.mode = "operator"]
      [] k = "n"   -> [st EXCEPT !.out = Append(@, <<"n">>), !.mode = "operator"]
      [] k = "("   -> [st EXCEPT !.ops = Append(@, "(")]
      [] k = "+"   -> [st EXCEPT !.ops = Append(@, "u+")]
      [] k = "-"   -> [st EXCEPT !.ops = Append(@, "u-")]
      [] k = "~"   -> [st EXCEPT !.ops = Append(@, "u~")]
      [] k = "!"   -> [st EXCEPT !.ops = Append(@, "u!")]
      [] k = "++"  -> [st EXCEPT !.ops = Append(@, "u++"), !.ext = TRUE]
      [] k = "--"  -> [st EXCEPT !.ops = Append(@, "u--"), !.ext = TRUE]
      [] OTHER     -> Bad
  ELSE
    CASE k \in {"++", "--"} ->
           [st EXCEPT !.out = Append(Pop(@), <<IF k = "++" THEN "u++" ELSE "u--", Top(st.out)>>),
                      !.ext = TRUE]
      [] k \in BinOps ->
           LET r == ReduceWhile(st, Prec(k, dev), dev)
           IN [r EXCEPT !.ops = Append(@, k), !.mode = "operand"]
      [] k = "?" ->
           LET r == ReduceWhile(st, 1, dev)
           IN [r EXCEPT !.ops = Append(@, "?"), !.mode = "operand"]
      [] k = ":" ->
           LET r == ReduceWhile(st, 0, dev)
           IN IF r.ops # <<>> /\ Top(r.ops) = "?"
              THEN [r EXCEPT !.ops = Append(Pop(@), "?:"), !.mode = "operand"]
              ELSE Trailing
      [] k = ")" ->
           LET r == ReduceWhile(st, 0, dev)
           IN IF r.ops # <<>> /\ Top(r.ops) = "("
              THEN [r EXCEPT !.ops = Pop(@)]
              ELSE Trailing
      [] OTHER -> Trailing         \* operand, "(", "~" or "!" after an operand

Complete(st) == ~st.bad /\ st.mode = "operator" /\ ~OpenIn(st)
Finish(st, dev) == ReduceWhile(st, 0, dev)

ParseToks(toks, dev) ==
  LET S(st, t) == Step(st, t, dev) IN FoldLeft(S, ParseInit, toks)

----------------------------------------------------------------------------
(* Evaluator: C semantics on 64-bit signed integers                         *)

Apply(op, a, b, dev) ==
  CASE op = "*" -> Mul(a, b)
    [] op = "/" -> IF IsZero(b) THEN Err ELSE Div(a, b)
    [] op = "%" -> IF IsZero(b) THEN Err ELSE Mod(a, b)
    [] op = "+" -> Add(a, b)
    [] op = "-" -> Sub(a, b)
    [] op = ">>" -> ShiftR(a, b)
    [] op = "<<" -> ShiftL(a, b)
    [] op = ">" -> Bool(Lt(b, a))
    [] op = "<" -> Bool(Lt(a, b))
    [] op = ">=" -> Bool(Le(b, a))
    [] op = "<=" -> Bool(Le(a, b))
    [] op = "==" -> Bool(a = b)
    [] op = "!=" -> Bool(a # b)
    [] op = "&" -> BitAnd(a, b)
    [] op = "^" -> IF dev THEN BitAnd(a, b) ELSE BitXor(a, b)
    [] op = "|" -> BitOr(a, b)
Monadic(op, a) ==
  CASE op = "u+" -> a
    [] op = "u-" -> Neg(a)
    [] op = "u~" -> BitNot(a)
    [] op = "u!" -> Bool(IsZero(a))
    [] op = "u++" -> Add(a, One)
    [] op = "u--" -> Sub(a, One)

NoValue(v) == v = Err \/ v = Undef
RECURSIVE Eval(_, _, _)
Eval(e, n, dev) == TLCEval(
  CASE e[1] = "num" -> IF e[2] = Undef THEN Err ELSE IF e[3][1] = 48 /\ Len(e[3]) > 1 THEN Undef ELSE e[2]
    [] e[1] = "n"   -> n
    [] e[1] \in Unary -> LET a == Eval(e[2], n, dev) IN IF NoValue(a) THEN a ELSE Monadic(e[1], a)
    [] e[1] = "?:" ->
         LET c == Eval(e[2], n, dev)
         IN IF NoValue(c) THEN c ELSE IF IsZero(c) THEN Eval(e[4], n, dev) ELSE Eval(e[3], n, dev)
    [] e[1] \in {"&&", "||"} ->
         LET a == Eval(e[2], n, dev)
         IN IF NoValue(a) THEN a
            ELSE IF IsZero(a) = (e[1] = "&&") THEN Bool(~IsZero(a))
            ELSE LET b == Eval(e[3], n, dev) IN IF NoValue(b) THEN b ELSE Bool(~IsZero(b))
    [] OTHER ->
         LET a == Eval(e[2], n, dev)
         IN IF NoValue(a) THEN a
            ELSE LET b == Eval(e[3], n, dev) IN IF NoValue(b) THEN b ELSE Apply(e[1], a, b, dev))

(* a literal that C would reject, or read as octal, makes the whole text    *)
(* unspecified unless it is evaluated (then it is an error resp. unspecified)*)
RECURSIVE OddLiteral(_)
OddLiteral(e) ==
  CASE e[1] = "num" -> e[2] = Undef \/ (e[3][1] = 48 /\ Len(e[3]) > 1)
    [] e[1] = "n"   -> FALSE
    [] OTHER        -> \E i \in 2..Len(e) : OddLiteral(e[i])

(* What evaluating a token list at n must give: a value, Err, or Undef.      *)
RuleToks(toks, n) ==
  LET st == ParseToks(toks, FALSE)
  IN IF Complete(st)
     THEN LET f == Finish(st, FALSE)
              v == Eval(f.out[1], n, FALSE)
          IN IF st.ext THEN Undef
             ELSE IF v # Err /\ OddLiteral(f.out[1]) THEN Undef ELSE v
     ELSE IF st.ext THEN Undef ELSE Err
(* The value as built (all recorded deviations together).                    *)
BuiltToks(toks, n) ==
  LET st == ParseToks(toks, TRUE)
  IN IF Complete(st) THEN Eval(Finish(st, TRUE).out[1], n, TRUE)
     ELSE IF st.tail THEN Eval(st.out[1], n, TRUE)
     ELSE Err
Rule(bytes, n) == LET l == Lex(bytes) IN IF l.bad THEN Err ELSE RuleToks(l.toks, n)
(* as built, characters behind a complete expression and one more token are   *)
(* not even looked at                                                       *)
Built(bytes, n) ==
  LET l == Lex(bytes)
  IN IF l.bad /\ ~ParseToks(l.toks, TRUE).tail THEN Err ELSE BuiltToks(l.toks, n)
=============================================================================
