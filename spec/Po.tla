--------------------------------- MODULE Po ---------------------------------
(***************************************************************************)
(* The PO format at byte level: ParsePo reads a text line by line and gives  *)
(*   st "ok"   with the entries, in order of appearance,                      *)
(*   st "err"  when the text is not PO (unquoted or badly escaped strings,    *)
(*             unknown lines, no text at all),                                *)
(*   st "open" when the text is neither plainly well-formed nor one of those. *)
(* StrictString accepts only what a writer may produce: standard escapes, no *)
(* raw control characters.                                                   *)
(***************************************************************************)
EXTENDS Bytes, Catalog

IsOct(c) == c >= 48 /\ c <= 55
HexVal(c) == CASE c >= 48 /\ c <= 57 -> c - 48 [] c >= 97 /\ c <= 102 -> c - 87 [] c >= 65 /\ c <= 70 -> c - 55 [] OTHER -> -1
EscOf(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12
              [] c = 114 -> 13 [] c = 34 -> 34 [] c = 92 -> 92 [] OTHER -> -1

(* a quoted string with nothing but blanks around it -------------------------*)
(* machine: m mode, out bytes, v/k value and digits of a numeric escape        *)
Q0 == [m |-> "start", out |-> <<>>, v |-> 0, k |-> 0]
Emitq(q, b, m) == [q EXCEPT !.out = Append(@, b), !.m = m]
Plain(q, c) == CASE c = 34 -> [q EXCEPT !.m = "end"] [] c = 92 -> [q EXCEPT !.m = "esc"]
                 [] c = 13 -> [q EXCEPT !.m = "open"]                       \* a stray carriage return
                 [] OTHER -> Emitq(q, c, "in")
StepQ(q, c) ==
  CASE q.m = "start" -> IF c = 34 THEN [q EXCEPT !.m = "in"] ELSE IF IsSpace(c) THEN q ELSE [q EXCEPT !.m = "err"]
    [] q.m = "in"    -> Plain(q, c)
    [] q.m = "esc"   -> CASE EscOf(c) >= 0 -> Emitq(q, EscOf(c), "in")
                          [] IsOct(c) -> [q EXCEPT !.m = "oct", !.v = c - 48, !.k = 1]
                          [] c = 120 -> [q EXCEPT !.m = "hex", !.v = 0, !.k = 0]
                          [] c \in {85, 117} -> [q EXCEPT !.m = "open"]      \* \u, \U: not C escapes of PO, tolerated
                          [] OTHER -> [q EXCEPT !.m = "err"]
    [] q.m = "oct"   -> IF IsOct(c) /\ q.k < 3
                        THEN IF q.v * 8 + c - 48 > 255 THEN [q EXCEPT !.m = "open"]
                             ELSE [q EXCEPT !.v = @ * 8 + c - 48, !.k = @ + 1]
                        ELSE Plain(Emitq(q, q.v, "in"), c)
    [] q.m = "hex"   -> IF HexVal(c) >= 0
                        THEN IF q.k = 2 THEN [q EXCEPT !.m = "open"]         \* C takes every digit there is
                             ELSE [q EXCEPT !.v = @ * 16 + HexVal(c), !.k = @ + 1]
                        ELSE IF q.k = 0 THEN [q EXCEPT !.m = "err"] ELSE Plain(Emitq(q, q.v, "in"), c)
    [] q.m = "end"   -> IF c \in {32, 9, 13} THEN q
                        ELSE IF c \in {34, 35, 109} THEN [q EXCEPT !.m = "open"]   \* more on the same line
                        ELSE [q EXCEPT !.m = "err"]
    [] OTHER -> q
(* [m |-> "ok"/"err"/"open", out] *)
ReadString(b) ==
  LET q == TLCEval(FoldLeft(StepQ, Q0, b))
  IN CASE q.m = "end" -> [m |-> "ok", out |-> q.out] [] q.m = "open" -> [m |-> "open", out |-> <<>>]
       [] OTHER -> [m |-> "err", out |-> <<>>]

(* lines ---------------------------------------------------------------------*)
KwCtxt == Bs("msgctxt")
KwPl == Bs("msgid_plural")
KwId == Bs("msgid")
KwStr == Bs("msgstr")
HashB == 35
NumBytes(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
(* kind: blank, cmt, ctxt, id, id2, str, strN, more, bad, open; with the string and the index *)
Ln(kind, str, n) == [kind |-> kind, str |-> str, n |-> n]
Keyed(kind, rest, n) ==
  IF TrimL(rest) = <<>> THEN Ln("bare" , Ln(kind, <<>>, n), 0)
  ELSE LET s == ReadString(rest)
       IN IF s.m = "ok" THEN Ln(kind, s.out, n) ELSE Ln(IF s.m = "open" THEN "open" ELSE "bad", <<>>, 0)
StrN(rest) ==      \* after "msgstr": "[digits]" ...
  LET close == IndexOf(rest, <<93>>)
      ds == IF close = 0 THEN <<>> ELSE SubSeq(rest, 2, close - 1)
  IN IF close = 0 \/ ds = <<>> \/ Len(ds) > 2 \/ \E k \in 1..Len(ds) : ~IsDig(ds[k]) THEN Ln("open", <<>>, 0)
     ELSE LET n == IF Len(ds) = 1 THEN ds[1] - 48 ELSE (ds[1] - 48) * 10 + ds[2] - 48
          IN IF ds # NumBytes(n) THEN Ln("open", <<>>, 0) ELSE Keyed("strN", From(rest, close + 1), n)
AfterKw(b, w) == From(b, Len(w) + 1)
Delim(b, w) == LET r == AfterKw(b, w) IN r = <<>> \/ r[1] \in {32, 9, 13, 34}
LinesOf(b) == LET ls == Split(b, 10)
              IN [k \in 1..Len(ls) |-> IF ls[k] # <<>> /\ ls[k][Len(ls[k])] = 13 THEN SubSeq(ls[k], 1, Len(ls[k]) - 1) ELSE ls[k]]
LineOf(raw) ==
  LET b == TrimL(raw)
  IN CASE b = <<>> -> Ln("blank", <<>>, 0)
       [] b[1] = HashB -> IF Len(b) >= 2 /\ b[2] = 126 THEN Ln("gone", <<>>, 0)      \* obsolete entries: whether they are kept as comments is left open
                          ELSE Ln("cmt", SelectSeq(b, LAMBDA c : c # 13), 0)
       [] b[1] = 34 -> LET s == ReadString(b) IN IF s.m = "ok" THEN Ln("more", s.out, 0)
                                                  ELSE Ln(IF s.m = "open" THEN "open" ELSE "bad", <<>>, 0)
       [] HasPrefix(b, KwCtxt) /\ Delim(b, KwCtxt) -> Keyed("ctxt", AfterKw(b, KwCtxt), 0)
       [] HasPrefix(b, KwPl) /\ Delim(b, KwPl) -> Keyed("id2", AfterKw(b, KwPl), 0)
       [] HasPrefix(b, KwId) /\ Delim(b, KwId) -> Keyed("id", AfterKw(b, KwId), 0)
       [] HasPrefix(b, KwStr) /\ Delim(b, KwStr) -> Keyed("str", AfterKw(b, KwStr), 0)
       [] HasPrefix(b, KwStr) /\ b[Len(KwStr) + 1] = 91 -> StrN(AfterKw(b, KwStr))
       [] OTHER -> Ln("bad", <<>>, 0)

(* entries ---------------------------------------------------------------------*)
(* machine: st status, cur entry with comments, f field last read, bare whether  *)
(* its keyword still waits for a string, ents the finished entries               *)
NoEntry == [cm |-> <<>>, c |-> <<>>, id |-> <<>>, pl |-> FALSE, id2 |-> <<>>, s |-> <<>>, n |-> <<>>]
P0 == [st |-> "ok", cur |-> NoEntry, f |-> "none", bare |-> FALSE, gap |-> FALSE, ents |-> <<>>]
Translated(e) == e.s # <<>> \/ \E k \in 1..Len(e.n) : e.n[k] # <<>>
SameKey(a, b) == a.c = b.c /\ a.id = b.id
EndEntry(p, tmpl) ==
  LET e == p.cur
      old == \E k \in 1..Len(p.ents) : SameKey(p.ents[k], e)
  IN IF tmpl \/ Translated(e)
     THEN [p EXCEPT !.ents = Append(SelectSeq(@, LAMBDA x : ~SameKey(x, e)), e), !.cur = NoEntry, !.f = "none"]
     ELSE IF old \/ e.n # <<>> THEN [p EXCEPT !.st = "open"]     \* which one counts is left open
     ELSE [p EXCEPT !.cur = NoEntry, !.f = "none"]
Ended(p) == p.f \in {"str", "strN"}
Begin(p, tmpl) == IF Ended(p) THEN EndEntry(p, tmpl) ELSE p
AddMore(e, f, s) ==
  CASE f = "ctxt" -> [e EXCEPT !.c = @ \o s] [] f = "id" -> [e EXCEPT !.id = @ \o s] [] f = "id2" -> [e EXCEPT !.id2 = @ \o s]
    [] f = "str" -> [e EXCEPT !.s = @ \o s] [] f = "strN" -> [e EXCEPT !.n[Len(e.n)] = @ \o s]
SetOpen(p) == [p EXCEPT !.st = "open"]
SetErr(p) == [p EXCEPT !.st = "err"]
Field(p, x, tmpl, bare) ==
  LET q == Begin(p, tmpl)
  IN IF q.st # "ok" THEN q
     ELSE CASE x.kind = "ctxt" /\ q.f = "none" -> [q EXCEPT !.cur.c = x.str, !.f = "ctxt", !.bare = bare]
            [] x.kind = "id" /\ q.f \in {"none", "ctxt"} -> [q EXCEPT !.cur.id = x.str, !.f = "id", !.bare = bare]
            [] OTHER -> SetOpen(q)
Inner(p, x, bare) ==
  CASE x.kind = "id2" /\ p.f = "id" -> [p EXCEPT !.cur.id2 = x.str, !.cur.pl = TRUE, !.f = "id2", !.bare = bare]
    [] x.kind = "str" /\ p.f = "id" -> [p EXCEPT !.cur.s = x.str, !.f = "str", !.bare = bare]
    [] x.kind = "strN" /\ ((p.f = "id2" /\ x.n = 0) \/ (p.f = "strN" /\ x.n = Len(p.cur.n))) ->
         [p EXCEPT !.cur.n = Append(@, x.str), !.f = "strN", !.bare = bare]
    [] OTHER -> SetOpen(p)
StepLine(p, raw, tmpl) ==
  IF p.st # "ok" THEN p
  ELSE LET x == TLCEval(LineOf(raw))
       IN CASE x.kind = "bad" -> SetErr(p)
            [] x.kind = "open" -> SetOpen(p)
            [] p.bare -> IF x.kind = "more" /\ ~p.gap THEN [p EXCEPT !.cur = AddMore(@, p.f, x.str), !.bare = FALSE]
                         ELSE IF x.kind = "blank" THEN [p EXCEPT !.gap = TRUE]
                         ELSE IF x.kind \in {"more", "cmt", "gone"} THEN SetOpen(p) ELSE SetErr(p)
            [] x.kind = "blank" -> p
            [] x.kind = "cmt" -> IF p.f = "none" THEN [p EXCEPT !.cur.cm = Append(@, x.str)]
                                 ELSE IF Ended(p) THEN LET q == EndEntry(p, tmpl) IN [q EXCEPT !.cur.cm = Append(@, x.str)]
                                 ELSE SetOpen(p)
            [] x.kind = "gone" -> IF p.f = "none" THEN p ELSE IF Ended(p) THEN EndEntry(p, tmpl) ELSE SetOpen(p)
            [] x.kind = "more" -> IF p.f = "none" THEN SetOpen(p) ELSE [p EXCEPT !.cur = AddMore(@, p.f, x.str)]
            [] x.kind \in {"ctxt", "id"} -> Field(p, x, tmpl, FALSE)
            [] x.kind = "bare" -> IF x.str.kind \in {"ctxt", "id"} THEN Field(p, x.str, tmpl, TRUE) ELSE Inner(p, x.str, TRUE)
            [] OTHER -> Inner(p, x, FALSE)
(* an error further down is reported whatever came before; an open place is not *)
AnyBad(ls) == \E k \in 1..Len(ls) : LineOf(ls[k]).kind = "bad"
ParsePo(b, tmpl) ==
  IF b = <<>> THEN [st |-> "err", ents |-> <<>>]
  ELSE LET ls == TLCEval(LinesOf(b))
           p == TLCEval(FoldLeft(LAMBDA a, x : TLCEval(StepLine(a, x, tmpl)), P0, ls))
           q == IF p.st # "ok" THEN p
                ELSE IF p.bare THEN SetErr(p)
                ELSE IF Ended(p) THEN EndEntry(p, tmpl) ELSE IF p.f = "none" THEN p ELSE SetOpen(p)
       IN IF q.st = "ok" THEN [st |-> "ok", ents |-> q.ents]
          ELSE IF q.st = "open" /\ AnyBad(ls) THEN [st |-> "err", ents |-> <<>>]
          ELSE [st |-> q.st, ents |-> <<>>]
=============================================================================
