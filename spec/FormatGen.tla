----------------------------- MODULE FormatGen -----------------------------
(* Enumerates messages piece by piece, with every argument list.              *)
EXTENDS Format, Json, CSV, IOUtils
CONSTANTS Pieces, MaxLen, ArgLists
VARIABLES m, n

A(t, v) == [t |-> t, v |-> v]
ArgsAll == { <<>>, <<A("int", <<53>>)>>, <<A("string", <<97, 37, 100>>)>>,
             <<A("int", <<45, 49, 50>>), A("string", <<228, 184, 150>>)>>,
             <<A("string", <<>>), A("int", <<48>>), A("bool", Str("true"))>>,
             <<A("nil", Str("nil")), A("int64", <<52>>)>>, <<A("int", <<51>>), A("error", <<101, 37>>), A("nil", Str("nil"))>>,
             <<A("float64", <<45, 50, 46, 53>>), A("string", <<195, 169, 97, 98>>)>>,
             <<A("list", <<91, 51, 32, 52, 93>>)>>, <<A("list", <<91, 93>>)>>, <<A("stringer", <<37, 100>>), A("list", <<91, 55, 93>>), A("uint", <<57>>)>> }
PiecesText == { <<97>>, <<37>>, <<37,115>>, <<37,100>>, <<37,118>>, <<37,91,50,93,115>>, <<37,91,49,93,100>>,
                <<37,45,52>>, <<37,48,51,100>>, <<37,37>>, <<228,184,150>>, <<33>>, <<115>>, <<32>>, <<100>> }
PiecesStars == { <<37>>, <<42>>, <<46>>, <<50>>, <<91,49,93>>, <<91,50,93>>, <<118>>, <<115>>, <<100>>, <<102>>, <<45>>, <<120>> }
PiecesFlags == { <<37>>, <<43>>, <<45>>, <<48>>, <<51>>, <<91,49,93>>, <<91,51,93>>, <<100>>, <<115>>, <<120>>, <<32>>, <<37,116>> }
Case(mm) == [k |-> "fmt", m |-> mm, cs |-> SetToSeq({[args |-> a, exp |-> Formatted(mm, a)] : a \in ArgsAll})]
Emit == CSVWrite("%1$s", <<ToJson(Case(m'))>>, IOEnv.CASES)
Init == m = <<>> /\ n = 0
Next == n < MaxLen /\ \E p \in Pieces : m' = m \o p /\ n' = n + 1
View == m
----------------------------------------------------------------------------
(* surplus arguments never show; text without percent signs is copied          *)
SurplusIgnored == \A a \in ArgsAll \ {<<>>} :
   LET r == Formatted(m, a) more == Formatted(m, Append(a, A("int", <<57>>)))
   IN r # <<>> => more = r
PlainCopied == (\A k \in 1..Len(m) : m[k] # 37) => \A a \in ArgsAll : Formatted(m, a) = <<m>>
=============================================================================
