------------------------------ MODULE LangGen ------------------------------
(* C15: every known language in every customary spelling.                      *)
EXTENDS Lang, Json, CSV, IOUtils
CONSTANTS GenRegions, Sufs, Cases, Seps
VARIABLES row, script, region, code, step
vars == <<row, script, region, code, step>>
SomeRegions == {Bs("US"), Bs("GB"), Bs("HK"), Bs("419")}
NoSuffix == {<<>>}
AllSuffixes == {<<>>, Bs(".UTF-8"), Bs("@euro"), Bs(".utf8@x"), Bs("-u-hc-h12"), Bs("_x-Priv")}
Alternate(b) == [k \in 1..Len(b) |-> IF k % 2 = 0 THEN Up(b)[k] ELSE Low(b)[k]]
Styled(b, m) == CASE m = 1 -> Low(b) [] m = 2 -> Up(b) [] m = 3 -> Title(b) [] m = 4 -> Alternate(b)
Names == {Rows[k].l : k \in 1..Len(Rows)} \cup {Alias[k][1] : k \in 1..Len(Alias)}
Init == /\ row \in Names /\ script = <<>> /\ region = <<>> /\ code = <<>> /\ step = 0
Choose == /\ step = 0 /\ step' = 1
          /\ script' \in {<<>>} \cup {RowOf(row)[1].sr[k][1] : k \in 1..Len(RowOf(row)[1].sr)}
          /\ region' \in {<<>>} \cup GenRegions \cup {RowOf(row)[1].sr[k][2] : k \in 1..Len(RowOf(row)[1].sr)}
          /\ UNCHANGED <<row, code>>
Part(sep, b) == IF b = <<>> THEN <<>> ELSE <<sep>> \o b
Spell == /\ step = 1 /\ step' = 2
         /\ \E m1, m2, m3 \in Cases, s1, s2 \in Seps, x \in Sufs :
              /\ (script = <<>> => m2 = 1 /\ s1 = 45) /\ (region = <<>> => m3 = 1 /\ s2 = 45)
              /\ code' = Styled(row, m1) \o Part(s1, Styled(script, m2)) \o Part(s2, Styled(region, m3)) \o x
         /\ UNCHANGED <<row, script, region>>
Next == Choose \/ Spell
Plain == row \o Part(45, script) \o Part(45, region)
Emit == step' # 2 \/
        CSVWrite("%1$s", <<ToJson([k |-> "lang", code |-> code', want |-> Norm5(code'), plain |-> Plain])>>, IOEnv.CASES)
SpellingFree == step = 2 => Ident(code) = Ident(Plain) /\ Ident(code) # <<>>
Stable == step = 2 => Norm5(Norm5(code)) = Norm5(code)
Form == step = 2 => LET w == Norm5(code) i == IndexOf(w, <<95>>)
                    IN i > 0 /\ SubSeq(w, 1, i - 1) = Low(RowOf(row)[1].l) /\ From(w, i + 1) = Up(From(w, i + 1))
=============================================================================
