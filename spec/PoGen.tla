------------------------------- MODULE PoGen -------------------------------
(* C08: texts put together piece by piece.  A piece is a line, a group of      *)
(* lines or, in mode "strings", part of a quoted string.                        *)
EXTENDS Po, Json, CSV, IOUtils
CONSTANTS Mode, MaxLen
VARIABLES text, len
vars == <<text, len>>

NL == Bs("\n")
Lines == {Bs("\n"), Bs("#: a:1\n"), Bs("msgctxt \"c\"\n"), Bs("msgid \"a\"\n"), Bs("msgid \"\"\n"), Bs("msgid_plural \"p\"\n"),
          Bs("msgstr \"x\"\n"), Bs("msgstr \"\"\n"), Bs("msgstr[0] \"y\"\n"), Bs("msgstr[1] \"z\"\n"), Bs("\"more\\n\"\n"),
          Bs("  \"ind\" \n"), Bs("msgid\n"), Bs("msgid\t\"t\"\n"), Bs("  # c\n"), Bs("garbage\n"), Bs("msgstr x\n"),
          Bs("msgstr 'x'\n"), Bs("msgid \"un\n"), Bs("\"q\n")}
StrFrame == << Bs("msgid \"k\"\nmsgstr \""), Bs("\"\n") >>
Pieces == {Bs("\\n"), Bs("\\t"), Bs("\\\""), Bs("\\\\"), Bs("\\0"), Bs("\\12"), Bs("\\377"), Bs("\\400"), Bs("\\x41"), Bs("\\xg"),
           Bs("\\q"), Bs("\\'"), Bs("\\a\\b\\f\\v\\r"), Bs("\""), Bs("x"), Bs("7"), Bs(" "), Bs("\t"), Bs("#"), Bs("\\"), Bs("%d"),
           <<195, 169>>, <<233>>, <<92, 195, 169>>, <<1>>, Bs("\"\n\""), Bs("\"\r\n\t\"")}
Blocks == {Bs("msgid \"\"\nmsgstr \"Language: fr\\n\"\n"), Bs("msgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"X: y\\n\"\n"),
           Bs("msgid \"a\"\nmsgstr \"1\"\n"), Bs("msgid \"\"\n\"a\"\nmsgstr \"\"\n\"2\"\n\"3\"\n"), Bs("msgctxt \"a\"\nmsgid \"b\"\nmsgstr \"4\"\n"),
           Bs("#. one\n#: f:1 f:2\n#, fuzzy\nmsgctxt \"\"\n\"a\"\nmsgid \"a\"\nmsgid_plural \"\"\nmsgstr[0] \"5\"\nmsgstr[1] \"\"\n\"6\"\n"),
           Bs("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"7\"\n"), Bs("msgid \"u\"\nmsgstr \"\"\n"),
           Bs("msgid \"v\"\nmsgid_plural \"vs\"\nmsgstr[0] \"\"\nmsgstr[1] \"8\"\nmsgstr[2] \"\"\n"),
           Bs("# end\n"), Bs("\n \t\n"), Bs("  msgid   \"a\"\n          \"b\"\n  msgstr  \"9\"\n#| msgid \"old\"\n"), Bs("oops\n")}

(* comments of every kind before, between and after entries *)
Remarks == {Bs("msgid \"a\"\nmsgstr \"1\"\n"), Bs("msgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"2\"\nmsgstr[1] \"3\"\n"), Bs("#\n"), Bs("# x\n"), Bs("#. x\n"),
            Bs("#: f.go:3\n"), Bs("#, fuzzy\n"), Bs("#| msgid \"o\"\n"), Bs("#~ msgid \"o\"\n"), Bs("#~| msgid \"o\"\n"), Bs("#~\n"), Bs("##\n"), Bs("#x\n"), Bs("#=\n"),
            Bs("#~ msgid \"o\"\n#~ msgstr \"p\"\n"), Bs("#\"q\"\n"), Bs("\t#, c-format\n"), Bs("#msgid \"k\"\n"), Bs("\n")}
Text(t) == IF Mode = "strings" THEN StrFrame[1] \o t \o StrFrame[2] ELSE t
Crlf(b) == FoldLeft(LAMBDA a, c : IF c = 10 THEN a \o <<13, 10>> ELSE Append(a, c), <<>>, b)
Ents(r) == [st |-> r.st, ents |-> r.ents]
Emit == LET t == Text(text')
            po == TLCEval(ParsePo(t, FALSE))
            pot == TLCEval(ParsePo(t, TRUE))
        IN (po.st = "open" /\ pot.st = "open") \/
           CSVWrite("%1$s", <<ToJson([k |-> "po", text |-> t, po |-> Ents(po), pot |-> Ents(pot)])>>, IOEnv.CASES)

Init == text = <<>> /\ len = 0
Unfinished(t) == \* the last entry has begun but has no translation yet: worth extending
  LET ls == LinesOf(t)
      p == FoldLeft(LAMBDA a, x : StepLine(a, x, TRUE), P0, ls)
  IN p.st = "ok" \/ p.bare
Next == /\ len < MaxLen
        /\ Mode = "strings" \/ text = <<>> \/ Unfinished(text)
        /\ \E b \in (CASE Mode = "lines" -> Lines [] Mode = "strings" -> Pieces [] Mode = "blocks" -> Blocks [] Mode = "comments" -> Remarks) : text' = text \o b
        /\ len' = len + 1

----------------------------------------------------------------------------
(* properties of the specified reader itself                                    *)
(* CRLF line ends, a missing final newline and blank lines change nothing        *)
SameParse(a, b) == \A tm \in BOOLEAN : LET x == ParsePo(a, tm) y == ParsePo(b, tm) IN x.st = y.st /\ x.ents = y.ents
LineEndsFree == LET t == Text(text) IN t = <<>> \/ (\E k \in 1..Len(t) : t[k] = 13) \/
   /\ SameParse(t, Crlf(t))
   /\ t[Len(t)] = 10 /\ Len(t) > 1 => SameParse(t, SubSeq(t, 1, Len(t) - 1))
(* what a catalog keeps is part of what a template keeps                         *)
KeepsTranslated == LET t == Text(text)
                       a == ParsePo(t, FALSE)
                       b == ParsePo(t, TRUE)
                   IN a.st = "ok" /\ b.st = "ok" =>
                      \A k \in 1..Len(a.ents) : \E j \in 1..Len(b.ents) : a.ents[k] = b.ents[j]
UniqueKeys == LET b == ParsePo(Text(text), TRUE)
              IN \A i, j \in 1..Len(b.ents) : SameKey(b.ents[i], b.ents[j]) => i = j
=============================================================================
