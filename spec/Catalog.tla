------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* One catalog: its entries, the header it reads its language and plural    *)
(* rule from, and lookups.  Texts are byte sequences.                       *)
(* An entry is [c, id, pl, id2, s, n]: context, message, is-plural flag,    *)
(* plural, translation, plural translations.  A catalog is a sequence of    *)
(* entries with distinct <<c, id>>; PutEntry replaces.                           *)
(***************************************************************************)
EXTENDS Bytes, Plural, Format

Find(cat, c, id) == SelectSeq(cat, LAMBDA e : e.c = c /\ e.id = id)
PutEntry(cat, e) == IF Find(cat, e.c, e.id) = <<>> THEN Append(cat, e)
               ELSE [k \in 1..Len(cat) |-> IF cat[k].c = e.c /\ cat[k].id = e.id THEN e ELSE cat[k]]

(* headers -----------------------------------------------------------------*)
ColonBlank == <<58, 32>>
HeaderLine(line) ==        \* <<>> or <<name, value>>
  LET i == IndexOf(line, ColonBlank)
  IN IF i = 0 THEN <<>> ELSE <<Trim(SubSeq(line, 1, i - 1)), Trim(From(line, i + 2))>>
HeaderText(cat) == LET h == Find(cat, <<>>, <<>>) IN IF h = <<>> THEN <<>> ELSE h[1].s
Headers(cat) ==            \* sequence of <<name, value>>, first occurrence of a name first
  LET F(acc, line) == LET h == TLCEval(HeaderLine(line)) IN IF h = <<>> THEN acc ELSE Append(acc, h)
  IN TLCEval(FoldLeft(F, <<>>, Split(HeaderText(cat), 10)))
HeaderOf(cat, name) ==     \* <<>> or <<value>>
  LET hs == SelectSeq(Headers(cat), LAMBDA h : h[1] = name) IN IF hs = <<>> THEN <<>> ELSE <<hs[1][2]>>
LangName == Bs("Language")
FormsName == Bs("Plural-Forms")
Lang(cat) == LET h == HeaderOf(cat, LangName) IN IF h = <<>> THEN <<>> ELSE h[1]

(* plural rule: [total, expr]; total 0 means there is none                   *)
NoRule == [total |-> 0, expr |-> <<>>]
SkipSp(b) == TrimL(b)
After(b, word) == IF HasPrefix(b, word) THEN <<SkipSp(From(b, Len(word) + 1))>> ELSE <<>>
Rules(forms) ==
  LET a == After(TrimL(forms), Bs("nplurals"))
      b == IF a = <<>> THEN <<>> ELSE After(a[1], Bs("="))
      d == IF b = <<>> \/ b[1] = <<>> THEN <<>> ELSE IF ~IsDig(b[1][1]) THEN <<>> ELSE After(From(b[1], 2) , <<>>)
      e == IF d = <<>> THEN <<>> ELSE After(d[1], Bs(";"))
      f == IF e = <<>> THEN <<>> ELSE After(e[1], Bs("plural"))
      g == IF f = <<>> THEN <<>> ELSE After(f[1], Bs("="))
      body == IF g = <<>> THEN <<>> ELSE g[1]
  IN IF g = <<>> \/ body = <<>> THEN NoRule
     ELSE IF body[Len(body)] # 59 THEN NoRule
     ELSE [total |-> b[1][1] - 48, expr |-> SubSeq(body, 1, Len(body) - 1)]
RuleOf(cat) == LET h == HeaderOf(cat, FormsName) IN IF h = <<>> THEN NoRule ELSE TLCEval(Rules(h[1]))

(* lookups: the raw text chosen, before formatting                           *)
Default(id, id2, n) == IF id2 # <<>> /\ n # One THEN id2 ELSE id
PickX(cat, c, id) ==
  LET e == Find(cat, c, id) IN IF e = <<>> THEN id ELSE IF e[1].s = <<>> THEN id ELSE e[1].s
(* the plural form number, -1 when the rule gives none                       *)
SmallOf(v) == IF v \in {Norm(<<k, 0, 0, 0, 0, 0, 0, 0>>) : k \in 0..8}
              THEN CHOOSE k \in 0..8 : v = Norm(<<k, 0, 0, 0, 0, 0, 0, 0>>) ELSE -1
FormNo(rule, n) == IF rule.total = 0 THEN -1
                   ELSE LET v == TLCEval(Rule(rule.expr, n))
                        IN IF v = Undef THEN -2 ELSE IF v = Err THEN -1
                           ELSE LET k == SmallOf(v) IN IF k >= rule.total THEN -1 ELSE k
(* <<text>>, or <<>> when the specification leaves the rule's value open      *)
PickXN(cat, c, id, id2, n) ==
  LET e == Find(cat, c, id)
  IN IF e = <<>> THEN <<Default(id, id2, n)>>
     ELSE IF e[1].id2 = <<>> /\ e[1].n = <<>> THEN <<IF e[1].s = <<>> THEN id ELSE e[1].s>>
     ELSE LET k == TLCEval(FormNo(RuleOf(cat), n))
          IN IF k = -2 THEN <<>>
             ELSE IF k < 0 \/ k >= Len(e[1].n) THEN <<Default(id, id2, n)>>
             ELSE IF e[1].n[k + 1] = <<>> THEN <<Default(id, id2, n)>> ELSE <<e[1].n[k + 1]>>
=============================================================================
