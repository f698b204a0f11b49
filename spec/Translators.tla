---------------------------- MODULE Translators ----------------------------
(***************************************************************************)
(* The catalogs of one domain, added one by one: a translation maps          *)
(* normalised languages to translators.  A translator is [id, kind]: kind    *)
(* "file" is a catalog that knows one message, "own" one of the              *)
(* application's own, which answers with what it was asked.                  *)
(* A state is a sequence of <<language, translator>>, distinct languages.    *)
(***************************************************************************)
EXTENDS Registry

Tor(id, kind) == [id |-> id, kind |-> kind]
At(s, l) == IF HasLang(s, l) THEN <<Cat(s, l)>> ELSE <<>>
Put(s, sp, tor) == IF sp = "" THEN s
                   ELSE LET l == NormOf(sp) IN Append(SelectSeq(s, LAMBDA r : r[1] # l), <<l, tor>>)

(* operations: op, l (spelling, "" states no language), k (what is in the      *)
(* content), x (the file's extension), id (names what is added)                *)
Reads(o) == o.k = "good"
Answer(st, ret) == [st |-> st, ret |-> ret]
DoTr(s, o) ==
  CASE o.op = "own"  -> Answer(Put(s, o.l, Tor(o.id, "own")),
                               IF o.l # "" /\ HasLang(s, NormOf(o.l)) THEN Cat(s, NormOf(o.l)).id ELSE "none")
    [] o.op = "file" -> Answer(Put(s, o.l, Tor(o.id, "file")),
                               IF o.l # "" /\ HasLang(s, NormOf(o.l)) THEN Cat(s, NormOf(o.l)).id ELSE "none")
    [] o.op \in {"po", "mo"} -> IF Reads(o) THEN Answer(Put(s, o.l, Tor(o.id, "file")), "ok") ELSE Answer(s, "error")
    [] o.op = "open" -> IF o.k \in {"nostat", "readerr"} THEN Answer(s, "error")
                        ELSE IF o.x \notin {".po", ".mo"} THEN Answer(s, "any")
                        ELSE IF Reads(o) THEN Answer(Put(s, o.l, Tor(o.id, "file")), "ok") ELSE Answer(s, "error")
    [] o.op = "fs"   -> IF Reads(o) /\ o.x \in {".po", ".mo"} THEN Answer(Put(s, o.l, Tor(o.id, "file")), "true") ELSE Answer(s, "false")

(* lookups: what the translator for the language answers -----------------------*)
Many(ss) == IF ss = <<>> THEN "[]" ELSE "[" \o FoldLeft(LAMBDA a, x : a \o " " \o x, ss[1], Tail(ss)) \o "]"
Subst(id, args) == IF id = "who" THEN id ELSE IF args = <<>> THEN id \o " %s" ELSE id \o " " \o args[1]
Whole(id) == IF id \in {"", "who"} THEN id ELSE id \o " %s"
AskX(t, c, id, args) ==
  IF t = <<>> THEN Subst(id, args)
  ELSE IF t[1].kind = "own" THEN t[1].id \o "|X|" \o c \o "|" \o Whole(id) \o "|" \o Many(args)
  ELSE IF c = "" /\ id = "who" THEN t[1].id ELSE Subst(id, args)
AskXN(t, c, id, id2, n, args) ==    \* n as [text, one]: the count written out, and whether it is 1
  IF t # <<>> /\ t[1].kind = "own" THEN t[1].id \o "|XN|" \o c \o "|" \o Whole(id) \o "|" \o Whole(id2) \o "|" \o n.text \o "|" \o Many(args)
  ELSE IF t # <<>> /\ c = "" /\ id = "who" THEN t[1].id
  ELSE Subst(IF id2 # "" /\ ~n.one THEN id2 ELSE id, args)
=============================================================================
