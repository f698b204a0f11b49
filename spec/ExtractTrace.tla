---------------------------- MODULE ExtractTrace ----------------------------
(* Validates recorded extractions: the trees the files were written from, and  *)
(* the bytes of the template written, read with the specified PO reader.        *)
EXTENDS Extract, Po, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
NumOf(b) == FoldLeft(LAMBDA a, x : 10 * a + x - 48, 0, b)
PlaceMark == Bs("#: ")
(* the place a comment states: [file, line], file 0 when it is none of them       *)
Place(e, cm) ==
  LET rest == From(cm, 4)
      fs == {f \in 1..Len(e.files) : LET h == e.dir \o <<47>> \o e.files[f].name \o <<58>>
                                     IN HasPrefix(rest, h) /\ Len(rest) > Len(h) /\ Len(rest) < Len(h) + 8
                                        /\ \A k \in (Len(h) + 1)..Len(rest) : DigitOf(rest[k])}
  IN IF fs = {} THEN [file |-> 0, line |-> 0]
     ELSE LET f == CHOOSE f \in fs : TRUE
          IN [file |-> f, line |-> NumOf(From(rest, Len(e.dir) + Len(e.files[f].name) + 3))]
FlagMark == Bs("#,")
FmtMark == Bs("go-format")
HasPart(b, p) == \E i \in 1..(Len(b) - Len(p) + 1) : SubSeq(b, i, i + Len(p) - 1) = p
Seen(e, x) == LET ps == SelectSeq(x.cm, LAMBDA cm : HasPrefix(cm, PlaceMark))
              IN [c |-> x.c, id |-> x.id, pl |-> x.pl, id2 |-> x.id2,
                  fl |-> \E k \in 1..Len(x.cm) : HasPrefix(x.cm[k], FlagMark) /\ HasPart(x.cm[k], FmtMark), occ |-> [k \in 1..Len(ps) |-> Place(e, ps[k])]]
FormsHead == Bs("Plural-Forms")
Verdict(e) ==
  LET ws == TLCEval([f \in 1..Len(e.files) |-> WalkAll([l |-> e.l, r |-> e.r], e.files[f].tree, Start, <<>>)])
      kws == Decls(e.kw).kws
      exp == TLCEval(Expected(Concat([f \in 1..Len(e.files) |-> UsesOf(kws, ws[f], f)])))
      po == TLCEval(ParsePo(e.out, TRUE))
      heads == {k \in 1..Len(po.ents) : po.ents[k].c = <<>> /\ po.ents[k].id = <<>>}
      rest == SelectSeq(po.ents, LAMBDA x : ~(x.c = <<>> /\ x.id = <<>>))
      obs == TLCEval([k \in 1..Len(rest) |-> Seen(e, rest[k])])
  IN IF \E f \in 1..Len(e.files) : ws[f].text # e.files[f].text THEN Assert(FALSE, <<"rendering differs", e.files>>)
     ELSE IF e.err # "" THEN "run failed"
     ELSE IF po.st # "ok" THEN "not a well-formed template"
     ELSE IF heads # {1} THEN "not one header in the first place"
     ELSE IF ~Translated(po.ents[1]) \/ (\E k \in 1..Len(po.ents[1].cm) : HasPrefix(po.ents[1].cm[k], PlaceMark)) THEN "a message as header"
     ELSE IF (HeaderOf(po.ents, FormsHead) # <<>>) # (\E k \in 1..Len(obs) : obs[k].pl) THEN "plural-forms line"
     ELSE IF \E k \in 1..Len(rest) : Translated(rest[k]) THEN "translated"
     ELSE IF ~Accepts(obs, exp) THEN "entries"
     ELSE "ok"
Judge(i) == LET v == TLCEval(Verdict(Trace[i])) IN IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> v])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
