---------------------------- MODULE KeywordsGen ----------------------------
(* Texts put together from pieces of declarations.                            *)
EXTENDS Keywords, Json, CSV, IOUtils
CONSTANTS Mode, MaxLen
VARIABLES b, n
vars == <<b, n>>
Tokens == { Bs("T"), Bs(";"), Bs(":"), Bs(","), Bs("1"), Bs("2"), Bs("c"), Bs(" ") }
Words == { Bs("gettext"), Bs("T:1"), Bs("N:1,2"), Bs("X:1c,2"), Bs("XN:1c,2,3"), Bs(" pN : 3 , 12 "), Bs("X:2c,1"), Bs("A:10c\t,20,\n30"),
           Bs("T:"), Bs(":1"), Bs(""), Bs(" "), Bs("T:1:2"), Bs("T:x"), Bs("T:1c"), Bs("T:1,2c"), Bs("XN:1,2,3"), Bs("XN:1c,2c,3"),
           Bs("XN:1c,2,3c"), Bs("XN:1c,2,3,4"), Bs("T:1,"), Bs("T:,1"), Bs("X:c,1"), Bs("X:1c,"), Bs("T:1.0"), Bs("T:0x1"), Bs("T:1cc,2"),
           Bs("N:1,x"), Bs("X:ac,1"), Bs("X:1c,b"), Bs("XN:xc,1,2"), Bs("XN:1c,x,2"), Bs("XN:1c,2,x"), Bs("T:01"), Bs("T:999999999"),
           Bs("_x1:7"), Bs("T:1C,2"), Bs("N:2,1"), Bs("T;"), Bs("T: ") }
Case(x) == LET d == TLCEval(Decls(x)) IN [k |-> "kw", src |-> x, st |-> d.st, kws |-> d.kws]
Emit == CSVWrite("%1$s", <<ToJson(Case(b'))>>, IOEnv.CASES)
Init == b = <<>> /\ n = 0 /\ CSVWrite("%1$s", <<ToJson(Case(<<>>))>>, IOEnv.CASES)
Next == /\ n < MaxLen /\ n' = n + 1
        /\ IF Mode = "tokens" THEN \E x \in Tokens : b' = b \o x
           ELSE \E x \in Words : b' = IF n = 0 THEN x ELSE b \o <<59>> \o x
View == b
----------------------------------------------------------------------------
(* nothing is both accepted and partial; writing out and reading again agrees  *)
WrittenOut == LET d == Decls(b) IN
  d.st = "ok" => /\ Len(d.kws) = Len(Split(b, 59))
                 /\ LET w == Concat([k \in 1..Len(d.kws) |-> (IF k = 1 THEN <<>> ELSE <<59>>) \o KwText(d.kws[k])])
                    IN Decls(w) = d
(* blanks around the parts do not matter                                        *)
Spaced(x) == Concat([k \in 1..Len(x) |-> IF x[k] \in {58, 59, 44} THEN <<32, x[k], 9>> ELSE <<x[k]>>])
BlanksFree == Decls(<<32>> \o Spaced(b) \o <<10>>) = Decls(b) \/ Decls(b).st = "open" \/ 32 \in {b[k] : k \in 1..Len(b)}
=============================================================================
