------------------------------ MODULE Keywords ------------------------------
(***************************************************************************)
(* Keyword declarations: "gettext;T:1;N:1,2;X:1c,2;XN:1c,2,3", byte by byte. *)
(* Decls(b) is [st, kws]: st "ok" with the declarations in order, "err", or  *)
(* "open" where the format does not say (signs, zero, very long numbers,     *)
(* names that are no identifiers).  A declaration is [name, c, id, pl]:       *)
(* positions of context, message and plural, 0 for none.                      *)
(***************************************************************************)
EXTENDS Bytes

Kw(name, c, id, pl) == [name |-> name, c |-> c, id |-> id, pl |-> pl]
One1(st, kw) == [st |-> st, kw |-> kw]
BadKw == One1("err", Kw(<<>>, 0, 0, 0))
OpenKw == One1("open", Kw(<<>>, 0, 0, 0))
DigitOf(x) == x >= 48 /\ x <= 57
AlphaOf(x) == (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122) \/ x = 95
IsIdent(b) == b # <<>> /\ AlphaOf(b[1]) /\ \A k \in 1..Len(b) : AlphaOf(b[k]) \/ DigitOf(b[k])

(* one position: [m: "num"/"bad"/"open", v, c: marked as context]              *)
Pos(raw) ==
  LET b == Trim(raw)
      mark == b # <<>> /\ b[Len(b)] = 99
      d == IF mark THEN SubSeq(b, 1, Len(b) - 1) ELSE b
      P(m, v) == [m |-> m, v |-> v, c |-> mark]
      sgn == d # <<>> /\ d[1] \in {43, 45}
      ds == IF sgn THEN From(d, 2) ELSE d
  IN IF mark /\ d # <<>> /\ IsSpace(d[Len(d)]) THEN P("open", 0)       \* "1 c"
     ELSE IF ds = <<>> \/ \E k \in 1..Len(ds) : ~DigitOf(ds[k]) THEN P("bad", 0)
     ELSE IF sgn \/ Len(ds) > 9 THEN P("open", 0)
     ELSE LET v == FoldLeft(LAMBDA a, x : 10 * a + x - 48, 0, ds) IN IF v = 0 THEN P("open", 0) ELSE P("num", v)

Positions(name, ps) ==
  LET n == Len(ps)
      badMark == CASE n = 1 -> ps[1].c
                   [] n = 2 -> ps[2].c
                   [] n = 3 -> ~ps[1].c \/ ps[2].c \/ ps[3].c
                   [] OTHER -> TRUE
  IN IF badMark \/ \E k \in 1..n : ps[k].m = "bad" THEN BadKw
     ELSE IF \E k \in 1..n : ps[k].m = "open" THEN OpenKw
     ELSE One1("ok", CASE n = 1 -> Kw(name, 0, ps[1].v, 0)
                       [] n = 2 -> IF ps[1].c THEN Kw(name, ps[1].v, ps[2].v, 0) ELSE Kw(name, 0, ps[1].v, ps[2].v)
                       [] n = 3 -> Kw(name, ps[1].v, ps[2].v, ps[3].v))

Decl(raw) ==
  LET parts == Split(raw, 58)
      name == Trim(parts[1])
      odd(x) == IF IsIdent(name) \/ x.st = "err" THEN x ELSE OpenKw
  IN IF name = <<>> \/ Len(parts) > 2 THEN BadKw
     ELSE IF Len(parts) = 1 THEN odd(One1("ok", Kw(name, 0, 1, 0)))
     ELSE LET raws == Split(parts[2], 44) IN odd(Positions(name, TLCEval([k \in 1..Len(raws) |-> Pos(raws[k])])))

Decls(b) ==
  LET raws == Split(b, 59)
      ds == TLCEval([k \in 1..Len(raws) |-> Decl(raws[k])])
      some(s) == \E k \in 1..Len(ds) : ds[k].st = s
  IN IF some("err") THEN [st |-> "err", kws |-> <<>>]
     ELSE IF some("open") THEN [st |-> "open", kws |-> <<>>]
     ELSE [st |-> "ok", kws |-> [k \in 1..Len(ds) |-> ds[k].kw]]

(* what a well-formed declaration looks like when written out                  *)
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NumText(n \div 10), 48 + (n % 10))
KwText(k) == k.name \o <<58>> \o (IF k.c > 0 THEN NumText(k.c) \o <<99, 44>> ELSE <<>>) \o NumText(k.id)
             \o (IF k.pl > 0 THEN <<44>> \o NumText(k.pl) ELSE <<>>)
=============================================================================
