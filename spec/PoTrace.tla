------------------------------ MODULE PoTrace ------------------------------
(* Validates recorded readings of random texts.                                *)
EXTENDS Po, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SetOf(s) == {s[k] : k \in 1..Len(s)}
Judge(i) ==
  LET e == Trace[i]
      r == TLCEval(ParsePo(e.text, e.tmpl))
  IN IF \/ r.st = "open" /\ e.st # "panic"
        \/ r.st = "err" /\ e.st = "err"
        \/ r.st = "ok" /\ e.st = "ok" /\ Len(e.ents) = Len(r.ents) /\ SetOf(e.ents) = SetOf(r.ents) THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> r])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
