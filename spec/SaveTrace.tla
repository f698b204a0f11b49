----------------------------- MODULE SaveTrace -----------------------------
(* Validates recorded savings.                                                  *)
EXTENDS Save, Json, CSV, IOUtils
CONSTANTS Chunk, What
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(i) ==
  LET e == Trace[i]
      w == TLCEval(CASE What = "po" -> WrongPo(e) [] What = "pot" -> WrongPot(e) [] What = "mo" -> WrongMo(e))
  IN IF w = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> w])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
