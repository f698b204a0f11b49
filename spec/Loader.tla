------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading a source of catalogs: a tree of files, some of them unreadable    *)
(* or malformed.  A node is [p |-> path as sequence of names (bytes),        *)
(* kind |-> what is in it, lang |-> the language it states].                 *)
(*  kind "good", "big": a catalog stating lang; "nolang": a catalog without one;    *)
(*  "bad"/"empty"/"swapped": not a catalog of the kind its name promises;    *)
(*  "noopen"/"readerr"/"nostat": the file cannot be read.                    *)
(* deny: directories that cannot be listed.                                  *)
(* Load is the walk itself, one file after another; Winner says the same     *)
(* without a walk, and TLC checks that they agree.                           *)
(***************************************************************************)
EXTENDS Bytes, Registry

Ext(nd) == LET name == nd.p[Len(nd.p)]
           IN IF HasSuffix(name, Bs(".po")) THEN "po" ELSE IF HasSuffix(name, Bs(".mo")) THEN "mo" ELSE "none"
RECURSIVE PathLt(_, _)
PathLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN LexLt(a[1], b[1]) ELSE PathLt(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
Below(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Seen(nd, deny) == \A k \in 1..Len(deny) : ~Below(nd.p, deny[k])
Parses(nd) == nd.kind \in {"good", "big", "nolang"} /\ Ext(nd) # "none"
States(nd) == nd.kind \in {"good", "big"} /\ Ext(nd) # "none"

(* the walk ----------------------------------------------------------------*)
(* st: [ok |-> something parsed, reg |-> sequence of <<language, node>>]      *)
ReadOne(st, nd) ==
  IF ~Parses(nd) THEN st
  ELSE LET l == NormOf(nd.lang)
       IN [ok |-> TRUE,
           reg |-> IF ~States(nd) THEN st.reg
                   ELSE Append(SelectSeq(st.reg, LAMBDA r : r[1] # l), <<l, nd.p>>)]
Pass(st, nodes, ext) == FoldLeft(LAMBDA s, nd : IF Ext(nd) = ext THEN ReadOne(s, nd) ELSE s, st, nodes)
Load(nodes, deny) ==
  LET seen == TLCEval(SelectSeq(nodes, LAMBDA nd : Seen(nd, deny)))
      sorted == TLCEval(SortSeq(seen, LAMBDA a, b : PathLt(a.p, b.p)))
  IN Pass(Pass([ok |-> FALSE, reg |-> <<>>], sorted, "mo"), sorted, "po")

(* the same as a statement about the whole tree ------------------------------*)
Providers(nodes, deny, l, ext) ==
  {k \in 1..Len(nodes) : Seen(nodes[k], deny) /\ States(nodes[k]) /\ Ext(nodes[k]) = ext /\ NormOf(nodes[k].lang) = l}
LastOf(nodes, ks) == nodes[CHOOSE k \in ks : \A j \in ks : j = k \/ PathLt(nodes[j].p, nodes[k].p)].p
Winner(nodes, deny, l) ==      \* <<>> or <<path>>
  LET po == Providers(nodes, deny, l, "po")
      mo == Providers(nodes, deny, l, "mo")
  IN IF po # {} THEN <<LastOf(nodes, po)>> ELSE IF mo # {} THEN <<LastOf(nodes, mo)>> ELSE <<>>
Agrees(nodes, deny) ==
  LET r == TLCEval(Load(nodes, deny))
      langs == {NormOf(nodes[k].lang) : k \in {j \in 1..Len(nodes) : States(nodes[j])}}
  IN /\ r.ok = (\E k \in 1..Len(nodes) : Seen(nodes[k], deny) /\ Parses(nodes[k]))
     /\ {r.reg[k][1] : k \in 1..Len(r.reg)} \subseteq langs
     /\ \A l \in langs : LET w == Winner(nodes, deny, l)
                             g == SelectSeq(r.reg, LAMBDA x : x[1] = l)
                         IN Len(g) = Len(w) /\ (g # <<>> => g[1][2] = w[1])
=============================================================================
