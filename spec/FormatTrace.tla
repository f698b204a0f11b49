---------------------------- MODULE FormatTrace ----------------------------
(* Validates recorded formatting: entry text chosen by the caller, random     *)
(* messages and arguments.                                                    *)
EXTENDS Format, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(i) == LET e == Trace[i] want == TLCEval(Formatted(e.m, e.args))
            IN IF want = <<>> \/ (want[1] = e.obs /\ e.kept) THEN TRUE
               ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> want[1]])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
