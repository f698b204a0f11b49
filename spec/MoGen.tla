------------------------------- MODULE MoGen -------------------------------
(* C12: files in every layout, and damaged ones.                               *)
EXTENDS Mo, Json, CSV, IOUtils
CONSTANTS Mode,      \* "layouts", "revisions", "cut" or "damage"
          MaxDamage
VARIABLES file, step
vars == <<file, step>>

E(c, id, pl, id2, s, n) == [c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Hd == E(<<>>, <<>>, FALSE, <<>>, Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\n"), <<>>)
Sa == E(<<>>, Bs("a"), FALSE, <<>>, Bs("A"), <<>>)
Cb == E(Bs("c"), Bs("a"), FALSE, <<>>, Bs("CA"), <<>>)
Ce == E(Bs("c"), <<>>, FALSE, <<>>, Bs("C"), <<>>)
Pl == E(<<>>, Bs("p"), TRUE, Bs("ps"), <<>>, <<Bs("P"), Bs("Ps")>>)
P0 == E(Bs("x"), Bs("p"), TRUE, <<>>, <<>>, << <<>>, Bs("1"), <<>> >>)
P1 == E(<<>>, <<195, 169>>, TRUE, <<255>>, <<>>, << <<128, 1>> >>)
Se == E(<<>>, Bs("b"), FALSE, <<>>, <<>>, <<>>)
Catalogs == { <<>>, <<Hd>>, <<Hd, Sa>>, <<Sa, Cb, Pl>>, <<Pl, P0, Ce, Hd>>, <<P1, Se, Sa, Cb, Pl, P0, Hd>> }
Orders == { s \in SetToAllKPermutations({"O", "T", "I", "S"}) : Len(s) = 4 } \cup { <<"H", "S", "T", "O", "I">>, <<"O", "T", "H", "I", "S">> }
Values == { 0, 1, 27, 28, 29, 100, 65535, Huge }   \* Huge stands for the extremes below
Extremes == { <<255,255,255,255>>, <<0,0,0,128>>, <<128,0,0,0>>, <<255,255,255,127>>, <<127,255,255,255>>, <<1,0,0,0>>, <<0,0,0,1>>,
              <<0,0,1,0>>, <<0,1,0,0>>, <<0,0,0,0>>, <<2,0,0,0>>, <<0,0,0,2>>, <<28,0,0,0>>, <<64,0,0,0>> }
Set4(b, at, w) == SubSeq(b, 1, at) \o w \o SubSeq(b, at + 5, Len(b))
Flip(b, at, v) == [b EXCEPT ![at] = v]
Bases == { WriteMo(c, be, o, p) : c \in {<<Hd, Sa, Pl>>, <<P0, Cb>>}, be \in BOOLEAN,
           o \in {<<"O", "T", "I", "S">>, <<"S", "I", "T", "O">>}, p \in {0} }

Emit == LET r == TLCEval(ParseMo(file'))
        IN CSVWrite("%1$s", <<ToJson([k |-> "mo", file |-> file', st |-> r.st, ents |-> r.ents])>>, IOEnv.CASES)
Init == step = 0 /\ file \in (IF Mode \in {"layouts", "revisions"} THEN {<<>>} ELSE Bases)
Layouts == /\ step = 0 /\ step' = 1
           /\ \E c \in Catalogs, be \in BOOLEAN, o \in Orders, p \in {0, 1, 6} : file' = WriteMo(c, be, o, p)
Cut == /\ step = 0 /\ step' = 1
       /\ \E k \in 0..Len(file) : file' = SubSeq(file, 1, k) \/ file' = SubSeq(file, 1, k) \o <<0>> \/ file' = SubSeq(file, k + 1, Len(file))
Damage == /\ step < MaxDamage /\ step' = step + 1
          /\ \/ \E w \in 0..((Len(file) \div 4) - 1), v \in Extremes :
                  4 * w < 28 + 16 * 3 + 4 /\ file' = Set4(file, 4 * w, v)
             \/ step = 0 /\ \E k \in 1..Len(file), v \in {0, 4, 255, 65} : file' = Flip(file, k, v)
(* revisions: major in the upper half of the word, minor in the lower             *)
W16(n, be) == IF be THEN <<n \div 256, n % 256>> ELSE <<n % 256, n \div 256>>
RevWord(M, m, be) == IF be THEN W16(M, be) \o W16(m, be) ELSE W16(m, be) \o W16(M, be)
RevBases == { [f |-> WriteMo(c, be, <<"O", "T", "I", "S">>, p), be |-> be] : c \in {<<>>, <<Sa, Cb, Pl>>, <<Hd, Sa, Pl>>}, be \in BOOLEAN, p \in {0, 6} }
Revisions == /\ step = 0 /\ step' = 1
             /\ \E x \in RevBases, M, m \in {0, 1, 2, 3, 255, 256, 257, 512, 65535} : file' = Set4(x.f, 4, RevWord(M, m, x.be))
Next == CASE Mode = "layouts" -> Layouts [] Mode = "revisions" -> Revisions [] Mode = "cut" -> Cut [] Mode = "damage" -> Damage

(* what is written in any layout reads back as the catalog                       *)
RoundTrip == Mode = "layouts" =>
  \A c \in {<<Sa, Cb, Pl>>, <<Pl, P0, Ce, Hd>>} : \A be \in BOOLEAN :
     LET r == ParseMo(WriteMo(c, be, <<"S", "T", "I", "O">>, 3)) IN r.st = "ok" /\ r.ents = c
=============================================================================
