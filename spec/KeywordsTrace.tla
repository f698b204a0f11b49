--------------------------- MODULE KeywordsTrace ---------------------------
(* Validates recorded readings of random keyword lists.                        *)
EXTENDS Keywords, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fine(e, d) == CASE d.st = "open" -> e.st \in {"ok", "err"}
                [] d.st = "err" -> e.st = "err" /\ e.kws = <<>>
                [] OTHER -> e.st = "ok" /\ e.kws = d.kws
Judge(i) == LET e == Trace[i] d == TLCEval(Decls(e.src))
            IN IF Fine(e, d) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> d])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
