---------------------------- MODULE LoaderTrace ----------------------------
(* Validates recorded loads of random trees.                                   *)
EXTENDS Loader, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Pairs(reg) == {reg[k] : k \in 1..Len(reg)}
Judge(i) ==
  LET e == Trace[i]
      r == TLCEval(Load(e.nodes, e.deny))
  IN IF r.ok = e.ok /\ Pairs(r.reg) = Pairs(e.reg) /\ Len(r.reg) = Len(e.reg) THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([i |-> i, exp |-> r])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
