--------------------------------- MODULE Mo ---------------------------------
(***************************************************************************)
(* The GNU MO format at byte level.  ParseMo gives                            *)
(*   st "ok"   with the entries the file encodes: it has to be read so;       *)
(*   st "lax"  with entries: odd (e.g. a string not followed by NUL), a reader *)
(*             may report an error or read it so;                             *)
(*   st "err"  when there is no way to read it; st "open" otherwise.          *)
(* Numbers from 2^24 on are all the same here: beyond every file.             *)
(* The major revision is the upper half of the second word: 0 and 1 are laid  *)
(* out alike, any other is a file of another kind.  A minor revision other    *)
(* than 0 may mean more than is read here, so a reader may refuse it.         *)
(***************************************************************************)
EXTENDS Bytes, Catalog

Huge == 16777216
U32(b, o, be) ==   \* o counts from 0; the caller checks that it is inside
  LET g(k) == b[o + k]
      m1 == IF be THEN g(1) ELSE g(4)
      m2 == IF be THEN g(2) ELSE g(3)
      m3 == IF be THEN g(3) ELSE g(2)
      m4 == IF be THEN g(4) ELSE g(1)
  IN IF m1 # 0 THEN Huge ELSE m2 * 65536 + m3 * 256 + m4
U16(b, o, be) == IF be THEN b[o + 1] * 256 + b[o + 2] ELSE b[o + 2] * 256 + b[o + 1]
W32(n, be) == LET a == <<0, n \div 65536, (n \div 256) % 256, n % 256>>
              IN IF be THEN a ELSE <<a[4], a[3], a[2], a[1]>>
MagicLE == <<222, 18, 4, 149>>
MagicBE == <<149, 4, 18, 222>>
Magic(be) == IF be THEN MagicBE ELSE MagicLE

Desc(b, tab, k, be) == [len |-> U32(b, tab + 8 * k, be), off |-> U32(b, tab + 8 * k + 4, be)]
Inside(b, d) == d.len < Huge /\ d.off < Huge /\ d.off + d.len <= Len(b)
Closed(b, d) == d.off + d.len < Len(b) /\ b[d.off + d.len + 1] = 0
Piece(b, d) == SubSeq(b, d.off + 1, d.off + d.len)

MoEntry(orig, tr) ==       \* [e |-> entry, plain |-> whether its meaning is beyond doubt]
  LET x == IndexOf(orig, <<4>>)
      c == IF x = 0 THEN <<>> ELSE SubSeq(orig, 1, x - 1)
      m == From(orig, x + 1)
      z == IndexOf(m, <<0>>)
      id == IF z = 0 THEN m ELSE SubSeq(m, 1, z - 1)
      id2 == IF z = 0 THEN <<>> ELSE From(m, z + 1)
      nuls == IndexOf(c, <<0>>) # 0 \/ IndexOf(id2, <<0>>) # 0
      pl == z # 0
  IN [e |-> [c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> IF pl THEN <<>> ELSE tr, n |-> IF pl THEN Split(tr, 0) ELSE <<>>],
      plain |-> ~nuls /\ IndexOf(m, <<4>>) = 0 /\ (pl \/ IndexOf(tr, <<0>>) = 0)]

Bad == [st |-> "err", ents |-> <<>>]
Unclear == [st |-> "open", ents |-> <<>>]
MoHead(b) ==               \* <<>> or <<[be, n, o, t]>>
  IF Len(b) < 28 THEN <<>>
  ELSE LET be == SubSeq(b, 1, 4) = MagicBE
       IN IF ~be /\ SubSeq(b, 1, 4) # MagicLE THEN <<>>
          ELSE << [be |-> be, major |-> U16(b, IF be THEN 4 ELSE 6, be), minor |-> U16(b, IF be THEN 6 ELSE 4, be), n |-> U32(b, 8, be), o |-> U32(b, 12, be), t |-> U32(b, 16, be)] >>
TableIn(b, tab, n) == n < Huge /\ tab < Huge /\ n * 8 <= Len(b) /\ tab + 8 * n <= Len(b)
ParseMo(b) ==
  LET hd == MoHead(b)
  IN IF hd = <<>> THEN Bad
     ELSE LET h == hd[1]
          IN IF h.major > 1 THEN Bad
             ELSE IF h.n = 0 THEN [st |-> IF h.minor = 0 /\ h.o <= Len(b) /\ h.t <= Len(b) THEN "ok" ELSE "lax", ents |-> <<>>]
             ELSE IF ~TableIn(b, h.o, h.n) \/ ~TableIn(b, h.t, h.n) THEN Bad
             ELSE LET os == TLCEval([k \in 1..h.n |-> Desc(b, h.o, k - 1, h.be)])
                      ts == TLCEval([k \in 1..h.n |-> Desc(b, h.t, k - 1, h.be)])
                  IN IF \E k \in 1..h.n : ~Inside(b, os[k]) \/ ~Inside(b, ts[k]) THEN Bad
                     ELSE LET es == TLCEval([k \in 1..h.n |-> MoEntry(Piece(b, os[k]), Piece(b, ts[k]))])
                              ents == [k \in 1..h.n |-> es[k].e]
                              closed == \A k \in 1..h.n : Closed(b, os[k]) /\ Closed(b, ts[k])
                              distinct == \A i, j \in 1..h.n : i # j => ents[i].c # ents[j].c \/ ents[i].id # ents[j].id
                          IN IF (\E k \in 1..h.n : ~es[k].plain) \/ ~distinct THEN Unclear
                             ELSE [st |-> IF h.minor = 0 /\ closed /\ h.o >= 28 /\ h.t >= 28 THEN "ok" ELSE "lax", ents |-> ents]
(* what lookup tools rely on: the originals as stored, for checking their order *)
Originals(b) == LET h == MoHead(b)[1]
                IN [k \in 1..h.n |-> Piece(b, Desc(b, h.o, k - 1, h.be))]

(* writing, with every freedom the format leaves ---------------------------------*)
OrigOf(e) == (IF e.c = <<>> THEN <<>> ELSE e.c \o <<4>>) \o e.id \o (IF e.pl THEN <<0>> \o e.id2 ELSE <<>>)
TransOf(e) == IF e.pl /\ e.n # <<>> THEN LET F(a, x) == a \o <<0>> \o x IN FoldLeft(F, e.n[1], SubSeq(e.n, 2, Len(e.n))) ELSE e.s
(* blocks in the given order: "O", "T" tables, "I" originals, "S" translations, "H" hash table; pad bytes between *)
SizeOf(blk, ents) == CASE blk \in {"O", "T"} -> 8 * Len(ents)
                       [] blk = "I" -> FoldLeft(LAMBDA a, e : a + Len(OrigOf(e)) + 1, 0, ents)
                       [] blk = "S" -> FoldLeft(LAMBDA a, e : a + Len(TransOf(e)) + 1, 0, ents)
                       [] blk = "H" -> 8
RECURSIVE At(_, _, _, _)
At(blk, order, ents, pad) ==      \* where a block starts
  LET i == CHOOSE k \in 1..Len(order) : order[k] = blk
  IN IF i = 1 THEN 28 + pad ELSE At(order[i - 1], order, ents, pad) + SizeOf(order[i - 1], ents) + pad
Table(ents, base, be, Get(_)) ==
  LET F(a, e) == [out |-> a.out \o W32(Len(Get(e)), be) \o W32(a.pos, be), pos |-> a.pos + Len(Get(e)) + 1]
  IN FoldLeft(F, [out |-> <<>>, pos |-> base], ents).out
Block(blk, order, ents, be, pad) ==
  CASE blk = "O" -> Table(ents, At("I", order, ents, pad), be, OrigOf)
    [] blk = "T" -> Table(ents, At("S", order, ents, pad), be, TransOf)
    [] blk = "I" -> FoldLeft(LAMBDA a, e : a \o OrigOf(e) \o <<0>>, <<>>, ents)
    [] blk = "S" -> FoldLeft(LAMBDA a, e : a \o TransOf(e) \o <<0>>, <<>>, ents)
    [] blk = "H" -> <<1, 0, 0, 0, 255, 255, 255, 255>>
Padding(n) == [k \in 1..n |-> 170]
WriteMo(ents, be, order, pad) ==
  LET hash == \E k \in 1..Len(order) : order[k] = "H"
      head == Magic(be) \o W32(0, be) \o W32(Len(ents), be) \o W32(At("O", order, ents, pad), be)
              \o W32(At("T", order, ents, pad), be) \o W32(IF hash THEN 2 ELSE 0, be)
              \o W32(IF hash THEN At("H", order, ents, pad) ELSE 0, be)
  IN FoldLeft(LAMBDA a, blk : a \o Padding(pad) \o Block(blk, order, ents, be, pad), head, order)
=============================================================================
