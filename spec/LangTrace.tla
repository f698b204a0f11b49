----------------------------- MODULE LangTrace -----------------------------
(* Validates recorded normalisations and negotiations.                          *)
EXTENDS Lang, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(i) ==
  LET e == Trace[i]
      bad(x) == CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> x])>>, IOEnv.MISMATCH)
  IN CASE e.k = "norm" -> LET x == TLCEval(Ident(e.code))
                          IN IF e.panic = "" /\ (x = <<>> \/ e.got = Canon(x[1])) THEN TRUE ELSE bad(IF x = <<>> THEN <<>> ELSE Canon(x[1]))
       [] e.k = "nego" -> LET a == TLCEval(Answers(e.sup, e.header, e.cookies, e.cookie))
                          IN IF e.panic = "" /\ e.got \in a THEN TRUE ELSE bad(a)
       [] e.k = "match" -> LET sup == TLCEval([k \in 1..Len(e.sup) |-> Ident(e.sup[k])])
                               want == TLCEval([k \in 1..Len(e.want) |-> Ident(e.want[k])])
                               known == \A s \in {sup, want} : \A k \in 1..Len(s) : s[k] # <<>> /\ s[k][1].lang \in Strangers /\ s[k][1].script # <<>>
                               a == TLCEval(IF known THEN Best([k \in 1..Len(sup) |-> sup[k][1]], [k \in 1..Len(want) |-> want[k][1]])
                                            ELSE 1..Len(sup))
                           IN IF e.panic = "" /\ e.got \in a THEN TRUE ELSE bad(a)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
