----------------------------- MODULE PluralTrace -----------------------------
(* Validates recorded evaluations: every logged answer must be the one the   *)
(* specification of the expression language gives.  Lines are independent,   *)
(* so TLC walks the log in chunks in parallel.                               *)
EXTENDS Plural, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Show(v) == IF v = Undef THEN <<>> ELSE IF v = Err THEN <<0>> ELSE ToLimbs(v)
Judge(i) ==
  LET e == Trace[i]
      n == Norm(e.n)
      want == TLCEval(Show(Rule(e.text, n)))
  IN IF want = <<>> \/ want = e.obs THEN TRUE
     ELSE LET built == TLCEval(Show(Built(e.text, n)))
          IN CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> want, dev |-> built])>>, IOEnv.MISMATCH)

Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
