---------------------------- MODULE LookupTrace ----------------------------
(* Validates recorded lookups and header questions on random catalogs.        *)
EXTENDS Catalog, Json, CSV, IOUtils
CONSTANT Chunk
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(ct, q) ==
  CASE q.f = "x" -> Formatted(PickX(ct, q.c, q.id), q.args)
    [] q.f = "xn" -> LET p == TLCEval(PickXN(ct, q.c, q.id, q.id2, Norm(q.n)))
                     IN IF p = <<>> THEN <<>> ELSE Formatted(p[1], q.args)
    [] q.f = "lang" -> <<Lang(ct)>>
    [] q.f = "hdr" -> LET h == HeaderOf(ct, q.id) IN IF h = <<>> THEN <<<<0>>>> ELSE <<<<1>> \o h[1]>>
Judge(i) ==
  LET e == Trace[i]
      ct == TLCEval(FoldLeft(PutEntry, <<>>, e.adds))
  IN \A k \in 1..Len(e.qs) :
       LET w == TLCEval(Want(ct, e.qs[k]))
       IN IF w = <<>> \/ w[1] = e.qs[k].obs THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson([i |-> i, q |-> k, exp |-> w[1]])>>, IOEnv.MISMATCH)
Init == l \in {i \in 1..Len(Trace) : i % Chunk = 1} /\ Judge(l)
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1 /\ Judge(l')
=============================================================================
