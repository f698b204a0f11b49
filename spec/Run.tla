-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* One extraction run, step by step: look at the flags (the command needs a   *)
(* pattern and a keyword list), read the keyword list, expand the pattern, examine the files one after another, open the output and write.   *)
(* A run is [kw, pat, files, out]; files is a sequence of kinds.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS Kws, Pats, Kinds, Outs, MaxFiles, Debugs

VARIABLES run, pc, at, failed, reported, output
vars == <<run, pc, at, failed, reported, output>>

GoodKind(k) == k \in {"good", "plain", "empty"}
Existing(o) == o \in {"exists", "longer", "readonlydir"}
FileSeqs == UNION {[1..n -> Kinds] : n \in 0..MaxFiles}
Init == /\ run \in [kw : Kws, pat : Pats, files : FileSeqs, out : Outs, debug : Debugs]
        /\ pc = "flags" /\ at = 1 /\ failed = FALSE /\ reported = {} /\ output = "old"
Fail == failed' = TRUE /\ pc' = "done" /\ UNCHANGED <<run, at, reported, output>>
Goto(x) == pc' = x /\ UNCHANGED <<run, at, failed, reported, output>>
Flags == pc = "flags" /\ IF run.kw = "blank" \/ run.pat = "blank" THEN Fail ELSE Goto("keywords")
Keywords == pc = "keywords" /\ IF run.kw = "good" THEN Goto("pattern") ELSE Fail
Pattern == pc = "pattern" /\ IF run.pat = "bad" THEN Fail ELSE IF run.pat = "none" THEN Goto("open") ELSE Goto("files")
Examine == /\ pc = "files"
           /\ IF at > Len(run.files)
              THEN (IF failed THEN pc' = "done" ELSE pc' = "open") /\ UNCHANGED <<run, at, failed, reported, output>>
              ELSE /\ at' = at + 1
                   /\ IF GoodKind(run.files[at]) THEN UNCHANGED <<failed, reported>>
                      ELSE failed' = TRUE /\ reported' = reported \cup {at}
                   /\ UNCHANGED <<run, pc, output>>
Opening == pc = "open" /\ IF run.out \in {"nodir", "isdir"} THEN Fail ELSE Goto("write")
Writing == /\ pc = "write" /\ pc' = "done" /\ UNCHANGED <<run, at, reported>>
           /\ IF run.out = "full" THEN failed' = TRUE /\ UNCHANGED output ELSE output' = "new" /\ UNCHANGED failed
Next == Flags \/ Keywords \/ Pattern \/ Examine \/ Opening \/ Writing

Emit == pc' # "done" \/ CSVWrite("%1$s", <<ToJson([k |-> "run", kw |-> run.kw, pat |-> run.pat, files |-> run.files, out |-> run.out,
                                              debug |-> run.debug, failed |-> failed', reported |-> SetToSeq(reported'), output |-> output'])>>, IOEnv.CASES)
----------------------------------------------------------------------------
Bad == run.kw # "good" \/ run.pat \in {"bad", "blank"} \/ (run.pat = "all" /\ \E k \in 1..Len(run.files) : ~GoodKind(run.files[k]))
       \/ run.out \in {"nodir", "isdir", "full"}
(* C21 on the specification *)
FailsIffBad == pc = "done" => (failed <=> Bad)
OldKept == failed => output = "old"
AllReported == (pc = "done" /\ run.kw = "good" /\ run.pat = "all") => reported = {k \in 1..Len(run.files) : ~GoodKind(run.files[k])}
OnlyBadReported == \A k \in reported : ~GoodKind(run.files[k])
Replaced == (pc = "done" /\ ~failed) => output = "new"
=============================================================================
