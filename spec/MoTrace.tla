------------------------------ MODULE MoTrace ------------------------------
(* Validates recorded readings of random and damaged MO files.                  *)
EXTENDS Mo, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SetOf(s) == {s[k] : k \in 1..Len(s)}
Same(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
Judge(i) ==
  LET e == Trace[i]
      r == TLCEval(ParseMo(e.file))
  IN IF \/ r.st = "open" /\ e.st # "panic"
        \/ r.st = "err" /\ e.st = "err"
        \/ r.st = "lax" /\ e.st = "err"
        \/ r.st \in {"ok", "lax"} /\ e.st = "ok" /\ Same(e.ents, r.ents) THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> r])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
