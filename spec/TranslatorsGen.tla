--------------------------- MODULE TranslatorsGen ---------------------------
(* C24: every short history of additions to one domain's translation.          *)
EXTENDS Translators, Json, CSV, IOUtils
CONSTANTS MaxSteps, Spells, Starts, What
VARIABLES s, hist, start
vars == <<s, hist, start>>

N(text) == [text |-> text, one |-> text = "1"]
Q(c, id, id2, n, args) == [c |-> c, id |-> id, id2 |-> id2, n |-> n, args |-> args]
Asked == << Q("", "who", "", "1", <<>>), Q("", "who", "many", "2", <<"a">>), Q("c", "m", "ms", "1", <<"a", "b">>), Q("", "m", "ms", "-5", <<"a">>),
            Q("", "m", "", "9223372036854775807", <<>>), Q("c", "who", "", "0", <<"x", "y", "z">>), Q("", "m", "who", "4294967297", <<>>),
            Q("c|d", "m", "ms", "-9223372036854775808", <<"a">>) >>
Langs == <<"de_DE", "en_US", "fr_FR", "ja_JP", "zh_CN", "zh_TW">>

Ops == [op : {"own", "file"}, l : Spells \cup {""}, k : {"good"}, x : {""}]
       \cup [op : {"po", "mo"}, l : Spells \cup {""}, k : {"good"}, x : {""}] \cup [op : {"po", "mo"}, l : {"fr"}, k : {"bad", "empty", "swapped"}, x : {""}]
       \cup [op : {"open", "fs"}, l : Spells, k : {"good"}, x : {".po", ".mo"}]
       \cup [op : {"open", "fs"}, l : {"zh"}, k : {"good", "bad", "swapped", "nostat", "readerr"}, x : {".po", ".mo", ".txt"}]
       \cup [op : {"open", "fs"}, l : {""}, k : {"good"}, x : {".po"}]
Used2 == IF What = "all" THEN Ops ELSE {o \in Ops : o.op \in {"own", "po", "open"} /\ o.x # ".txt" /\ (o.k = "good" \/ o.op = "po")}

StartState(st) == CASE st = "empty" -> <<>>
                    [] st = "two" -> << <<"zh_CN", Tor("s1", "own")>>, <<"fr_FR", Tor("s2", "own")>> >>
                    [] st = "twice" -> Put(Put(Put(Put(Put(<<>>, "zh", Tor("s1", "own")), "", Tor("s2", "own")), "fr", Tor("s3", "file")), "zh_CN", Tor("s4", "file")), "FR-fr", Tor("s5", "own"))
                    [] st = "bound" -> << <<"zh_CN", Tor("b1", "file")>>, <<"ja_JP", Tor("b2", "file")>> >>
Obs(st) == [k \in 1..Len(Langs) |-> LET t == At(st, Langs[k]) IN
             [l |-> Langs[k], id |-> IF t = <<>> THEN "none" ELSE t[1].id,
              x |-> [j \in 1..Len(Asked) |-> LET q == Asked[j] IN AskX(t, q.c, q.id, q.args)],
              xn |-> [j \in 1..Len(Asked) |-> LET q == Asked[j] IN AskXN(t, q.c, q.id, q.id2, N(q.n), q.args)]]]
Full(q) == [q EXCEPT !.id = Whole(@), !.id2 = Whole(@)]
Emit == hist' = hist \/ CSVWrite("%1$s", <<ToJson([k |-> "tors", start |-> start', h |-> hist', asked |-> [j \in 1..Len(Asked) |-> Full(Asked[j])],
                            locs |-> SelectSeq(Order, LAMBDA l : l = "en_US" \/ HasLang(s', l)), obs |-> Obs(s')])>>, IOEnv.CASES)

Init == start \in Starts /\ s = StartState(start) /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \E o \in Used2 : LET id == "t" \o ToString(Len(hist) + 1)
                                r == DoTr(s, [op |-> o.op, l |-> o.l, k |-> o.k, x |-> o.x, id |-> id])
                            IN s' = r.st /\ hist' = Append(hist, [op |-> o.op, l |-> o.l, k |-> o.k, x |-> o.x, id |-> id, ret |-> r.ret])
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* properties of the specification: at most one language changes at a time,    *)
(* and only to what was just added; languages are never lost                    *)
OneAtATime == [][/\ Cardinality({k \in 1..Len(Langs) : At(s, Langs[k]) # At(s', Langs[k])}) <= 1
                 /\ \A k \in 1..Len(Langs) : At(s, Langs[k]) # At(s', Langs[k]) =>
                        /\ At(s', Langs[k]) # <<>> /\ At(s', Langs[k])[1].id = hist'[Len(hist')].id
                        /\ NormOf(hist'[Len(hist')].l) = Langs[k]]_vars
Distinct == \A i, j \in 1..Len(s) : s[i][1] = s[j][1] => i = j
=============================================================================
