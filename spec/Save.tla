-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* What a saved catalog has to be.  A catalog comes from a history of        *)
(* AddEntry calls (adds); the saved text is judged by reading it with the    *)
(* specified readers ParsePo and ParseMo, never by comparing it with one     *)
(* particular way of writing.                                                *)
(***************************************************************************)
EXTENDS Mo, Po

CatOf(adds) == TLCEval(FoldLeft(PutEntry, <<>>, adds))
ElemsOf(s) == {s[k] : k \in 1..Len(s)}
SameElems(a, b) == Len(a) = Len(b) /\ ElemsOf(a) = ElemsOf(b)
IsHead(e) == e.c = <<>> /\ e.id = <<>>
HeadFirst(ents) == \A k \in 2..Len(ents) : ~IsHead(ents[k])
(* every message is stated once: as many msgid lines as there are entries    *)
IdLines(out) == LET ls == TLCEval(LinesOf(out))
                IN Cardinality({k \in 1..Len(ls) : LET x == LineOf(ls[k]) IN x.kind = "id" \/ (x.kind = "bare" /\ x.str.kind = "id")})

(* templates ----------------------------------------------------------------*)
Untranslate(e) == IF IsHead(e) THEN e ELSE [e EXCEPT !.s = <<>>, !.n = IF e.pl THEN << <<>> >> ELSE <<>>]
FormsMerged(e) ==  \* the number of empty forms a template gives a plural is its own affair
  IF e.pl /\ \A k \in 1..Len(e.n) : e.n[k] = <<>> THEN [e EXCEPT !.n = << <<>> >>] ELSE e
MapSeq(F(_), s) == [k \in 1..Len(s) |-> F(s[k])]

(* the order of a template: -1 before, 1 after, 0 equal, 9 not judged         *)
PosPrefix == <<35, 58>>
PosLines(e) == SelectSeq(e.cm, LAMBDA x : HasPrefix(x, PosPrefix))
Components(line) == LET items == Split(From(line, 3), 32)
                    IN Concat([k \in 1..Len(items) |-> Split(items[k], 58)])
IsNumber(b) == b # <<>> /\ Len(b) <= 9 /\ \A k \in 1..Len(b) : IsDig(b[k])
NumVal(b) == FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, b)
CmpBytes(a, b) ==   \* 9 where one is a prefix of the other
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      ds == {k \in 1..m : a[k] # b[k]}
  IN IF a = b THEN 0 ELSE IF ds = {} THEN 9
     ELSE LET k == CHOOSE k \in ds : \A j \in ds : k <= j IN IF a[k] < b[k] THEN -1 ELSE 1
CmpComp(x, y) == IF IsNumber(x) /\ IsNumber(y)
                 THEN (IF NumVal(x) < NumVal(y) THEN -1 ELSE IF NumVal(x) > NumVal(y) THEN 1 ELSE IF x = y THEN 0 ELSE 9)
                 ELSE IF IsNumber(x) \/ IsNumber(y) THEN 9 ELSE CmpBytes(x, y)
CmpPos(a, b) ==
  LET pa == TLCEval(Components(a))
      pb == TLCEval(Components(b))
      m == IF Len(pa) < Len(pb) THEN Len(pa) ELSE Len(pb)
      ds == {k \in 1..m : pa[k] # pb[k]}
  IN IF a = b THEN 0 ELSE IF ds = {} THEN 9
     ELSE LET k == CHOOSE k \in ds : \A j \in ds : k <= j IN CmpComp(pa[k], pb[k])
RECURSIVE CmpPlaces(_, _)     \* the first position comment counts most
CmpPlaces(pa, pb) ==
  IF pa = <<>> /\ pb = <<>> THEN 0 ELSE IF pa = <<>> \/ pb = <<>> THEN 9
  ELSE LET r == CmpPos(pa[1], pb[1]) IN IF r # 0 THEN r ELSE CmpPlaces(Tail(pa), Tail(pb))
CmpText(a, b) ==    \* a prefix comes first, unless control bytes are involved
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      r == CmpBytes(a, b)
  IN IF r # 9 THEN r ELSE IF (IF Len(a) > m THEN a[m + 1] ELSE b[m + 1]) <= 4 THEN 9 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
CmpKey(a, b) == LET r == CmpText(a.c, b.c) IN IF r # 0 THEN r ELSE CmpText(a.id, b.id)
Cmp(a, b) ==
  IF IsHead(a) THEN -1 ELSE IF IsHead(b) THEN 1
  ELSE LET pa == PosLines(a)
           pb == PosLines(b)
           r == CmpPlaces(pa, pb)
       IN IF r # 0 THEN r ELSE CmpKey(a, b)
InOrder(ents) == \A i, j \in 1..Len(ents) : i < j => Cmp(ents[i], ents[j]) # 1

(* entries without a translation: a plural one may be written with any number of *)
(* empty forms, and reading a catalog back may leave them out                    *)
Untold(e) == e.s = <<>> /\ (e.n = <<>> \/ \A k \in 1..Len(e.n) : e.n[k] = <<>>)
KeyOf(e) == <<e.c, e.id>>
Evened(ents, ct) ==   \* the plural entries that ct has without any form
  LET bare == {KeyOf(ct[k]) : k \in {j \in 1..Len(ct) : ct[j].pl /\ ct[j].s = <<>> /\ ct[j].n = <<>>}}
  IN MapSeq(LAMBDA e : IF KeyOf(e) \in bare THEN FormsMerged(e) ELSE e, ents)
ReadBack(re, ct) ==
  LET a == TLCEval(Evened(re, ct))
      b == TLCEval(Evened(ct, ct))
  IN /\ Cardinality(ElemsOf(a)) = Len(a) /\ ElemsOf(a) \subseteq ElemsOf(b)
     /\ \A k \in 1..Len(b) : Untold(b[k]) \/ b[k] \in ElemsOf(a)

(* MO -------------------------------------------------------------------------*)
NoComments(e) == [c |-> e.c, id |-> e.id, pl |-> e.pl, id2 |-> e.id2, s |-> e.s, n |-> e.n]
Ascending(os) == \A k \in 1..(Len(os) - 1) : LexLt(os[k], os[k + 1])

(* verdicts: "" or what is wrong -------------------------------------------*)
(* line: out, again, other (saved once more, built in another order: same     *)
(* bytes), re (entries the real reader finds), ans and reans (the lookups that *)
(* differ before and after), quiet (a failing writer was not reported), order  *)
(* (the template order, as places in the catalog)                               *)
Common(e) == CASE e.panic # "" -> "panic" [] e.err -> "saving or reading reports an error" [] ~e.again -> "saving again gives another text"
               [] ~e.other -> "the order of insertion shows" [] e.ans # e.reans -> "lookups differ after reading back"
               [] e.quiet -> "a failing writer goes unnoticed" [] OTHER -> ""
WrongPo(e) ==
  LET ct == CatOf(e.adds)
      r == TLCEval(ParsePo(e.out, TRUE))
  IN IF ct = <<>> THEN (IF e.panic # "" THEN "panic" ELSE "")
     ELSE IF Common(e) # "" THEN Common(e)
     ELSE CASE r.st # "ok" -> "not well-formed PO"
            [] ~SameElems(Evened(r.ents, ct), Evened(ct, ct)) -> "the text states other entries"
            [] ~HeadFirst(r.ents) -> "the header is not first"
            [] IdLines(e.out) # Len(ct) -> "an entry is stated more than once"
            [] ~ReadBack(e.re, ct) -> "other entries are read back"
            [] OTHER -> ""
WrongPot(e) ==
  LET ct == CatOf(e.adds)
      want == MapSeq(Untranslate, ct)
      r == TLCEval(ParsePo(e.out, TRUE))
  IN IF ct = <<>> THEN (IF e.panic # "" THEN "panic" ELSE "")
     ELSE IF Common(e) # "" THEN Common(e)
     ELSE CASE r.st # "ok" -> "not well-formed PO"
            [] ~SameElems(MapSeq(FormsMerged, r.ents), want) -> "the text states other entries"
            [] ~HeadFirst(r.ents) -> "the header is not first"
            [] IdLines(e.out) # Len(ct) -> "an entry is stated more than once"
            [] ~SameElems(MapSeq(FormsMerged, e.re), want) -> "other entries are read back"
            [] ~InOrder(r.ents) -> "not in template order"
            [] OTHER -> ""
WrongMo(e) ==
  LET ct == CatOf(e.adds)
      want == MapSeq(NoComments, ct)
      r == TLCEval(ParseMo(e.out))
  IN IF Common(e) # "" THEN Common(e)
     ELSE CASE r.st # "ok" -> "not a valid MO file"
            [] ~SameElems(Evened(r.ents, want), Evened(want, want)) -> "the file encodes other entries"
            [] ~SameElems(Evened(MapSeq(NoComments, e.re), want), Evened(want, want)) -> "other entries are read back"
            [] ~Ascending(Originals(e.out)) ->
                 IF Originals(e.out) = [k \in 1..Len(e.order) |-> OrigOf(ct[e.order[k]])] THEN "mo-order"
                 ELSE "originals neither ascending nor in template order"
            [] OTHER -> ""

(* one way of writing, for checking the judgement itself ----------------------*)
Oct3(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
Quoted(b) == <<34>> \o FoldLeft(LAMBDA a, c : a \o (CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c < 32 \/ c > 126 -> Oct3(c) [] OTHER -> <<c>>), <<>>, b) \o <<34, 10>>
FieldLine(kw, b) == kw \o <<32>> \o Quoted(b)
FormKw(k) == KwStr \o <<91>> \o NumBytes(k) \o <<93>>
PlainEntry(e) == Concat([k \in 1..Len(e.cm) |-> e.cm[k] \o <<10>>]) \o (IF e.c = <<>> THEN <<>> ELSE FieldLine(KwCtxt, e.c)) \o FieldLine(KwId, e.id)
                 \o (IF e.pl THEN FieldLine(KwPl, e.id2) \o Concat([k \in 1..Len(e.n) |-> FieldLine(FormKw(k - 1), e.n[k])])
                                    \o (IF e.n = <<>> /\ e.s = <<>> THEN FieldLine(FormKw(0), <<>>) ELSE <<>>)
                     ELSE FieldLine(KwStr, e.s))
PlainPo(ents) == Concat([k \in 1..Len(ents) |-> PlainEntry(ents[k])])
=============================================================================
