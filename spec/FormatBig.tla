----------------------------- MODULE FormatBig -----------------------------
(* C13: messages and argument lists that grow with d: verbs, surplus arguments,  *)
(* indexes, doubled percent signs, plain text, long values.  The expected text    *)
(* comes from the machine, except where the message takes no argument.            *)
EXTENDS Format, Json, CSV, IOUtils
CONSTANTS Families, Depths, UpTo
VARIABLES fam, d
vars == <<fam, d>>

A(t, v) == [t |-> t, v |-> v]
RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumText(k \div 10), 48 + (k % 10))
Cat(G(_), k) == FoldLeft(LAMBDA a, x : a \o x, <<>>, [i \in 1..k |-> G(i)])
Fillup(k, b) == [i \in 1..k |-> b]
Mixed(k) == [i \in 1..k |-> IF i % 9 = 0 THEN 32 ELSE IF i % 13 = 0 THEN 10 ELSE 97 + (i % 26)]
IntNo(i) == A("int", NumText(i))
ArgNo(i) == CASE i % 4 = 0 -> A("string", <<115>> \o NumText(i)) [] i % 4 = 1 -> IntNo(i)
              [] i % 4 = 2 -> A("string", <<37, 100>>) [] OTHER -> A("bool", Str("true"))
IntArgs(k) == [i \in 1..k |-> IntNo(i)]
MixArgs(k) == [i \in 1..k |-> ArgNo(i)]
Vs(k) == Cat(LAMBDA i : <<37, 118>>, k)
Case1(m, list) == [k |-> "fmt", m |-> m, cs |-> [i \in 1..Len(list) |-> [args |-> list[i], exp |-> Formatted(m, list[i])]]]

Make(f, k) ==
  CASE f = "verbs" -> Case1(Vs(k), << MixArgs(k), MixArgs(k + 1), MixArgs(k + 9) >>)
    [] f = "spaced" -> Case1(Cat(LAMBDA i : <<37, 100, 32>>, k), << IntArgs(k), IntArgs(k + 2) >>)
    [] f = "surplus" -> Case1(<<97, 37, 118, 98>>, << IntArgs(k), MixArgs(k), <<>> >>)
    [] f = "unused" -> Case1(<<97, 98, 99>>, << IntArgs(k), MixArgs(k), Fillup(k, A("nil", Str("nil"))), Fillup(k, A("string", <<>>)) >>)
    [] f = "percents" -> Case1(Cat(LAMBDA i : <<37, 37>>, k), << <<>>, IntArgs(1), IntArgs(3) >>)
    [] f = "percentsodd" -> Case1(Cat(LAMBDA i : <<37, 37>>, k) \o <<37, 100>>, << <<>>, IntArgs(1), IntArgs(3) >>)
    [] f = "signs" -> Case1(Fillup(k, 37) \o <<120>>, << <<>> >>)
    [] f = "bare" -> Case1(Vs(k), << <<>> >>)
    [] f = "indexes" -> Case1(Cat(LAMBDA i : <<37, 91>> \o NumText(k + 1 - i) \o <<93, 118, 44>>, k), << MixArgs(k), MixArgs(k + 1) >>)
    [] f = "again" -> Case1(Cat(LAMBDA i : <<37, 91, 49, 93, 118>>, k), << MixArgs(1), MixArgs(2), MixArgs(k) >>)
    [] f = "jumps" -> Case1(<<37, 91>> \o NumText(k) \o <<93, 118, 33>>, << MixArgs(k), MixArgs(k + 1), MixArgs(k + 7) >>)
    [] f = "restart" -> Case1(Vs(k) \o <<37, 91, 49, 93, 118>> \o Vs(k - 1), << MixArgs(k), MixArgs(k + 3) >>)
    [] f = "plain" -> Case1(Mixed(k), << <<>>, MixArgs(1), MixArgs(3) >>)
    [] f = "before" -> Case1(Mixed(k) \o <<37, 118>>, << MixArgs(1), MixArgs(2) >>)
    [] f = "after" -> Case1(<<37, 118>> \o Mixed(k), << MixArgs(1), MixArgs(2) >>)
    [] f = "wide" -> Case1(<<60, 37>> \o NumText(k) \o <<100, 62, 60, 37, 45>> \o NumText(k) \o <<115, 62>>, << << IntNo(7), A("string", <<195, 169>>) >>, << IntNo(1234567), A("string", <<97, 98>>), IntNo(5) >> >>)
    [] f = "value" -> Case1(<<60, 37, 115, 62>>, << << A("string", Mixed(k)) >>, << A("string", Fillup(k, 37)) >>, << A("error", Fillup(k, 33)), IntNo(k) >>,
                                                  << A("string", Mixed(k)), A("string", Mixed(k)) >> >>)
    [] f = "notice" -> Case1(<<37, 115>>, << << A("string", Fillup(k, 37) \o <<33, 40, 69, 88, 84, 82, 65, 32, 105, 110, 116, 61, 51, 41>>) >>,
                                            << A("string", Cat(LAMBDA i : <<37, 33, 40, 69, 88, 84, 82, 65, 32>>, k)), IntNo(4) >> >>)
    [] f = "unicode" -> Case1(Cat(LAMBDA i : <<228, 184, 150>>, k) \o <<37, 115>>, << << A("string", Cat(LAMBDA i : <<240, 159, 152, 128>>, k)) >>, << A("string", <<195, 169>>), IntNo(2) >> >>)

Of(f) == {k \in Depths : CASE f = "wide" -> k \in 1..300 [] f = "restart" -> k >= 1 [] f \in {"jumps", "indexes"} -> k \in 1..UpTo
                           [] f \in {"verbs", "spaced", "surplus", "unused", "percents", "percentsodd", "again", "bare"} -> k <= UpTo [] OTHER -> TRUE}
Emit == CSVWrite("%1$s", <<ToJson(Make(fam', d'))>>, IOEnv.CASES)
Init == fam = "" /\ d = 0
Next == fam = "" /\ \E f \in Families : \E k \in Of(f) : fam' = f /\ d' = k
View == vars
----------------------------------------------------------------------------
(* a message is found with its verbs read or not at all, and text that takes no   *)
(* argument comes out as it is                                                    *)
Sane == fam # "" => (/\ Len(Make(fam, d).cs) >= 1
                     /\ fam \in {"plain", "unused"} => \A c \in 1..Len(Make(fam, d).cs) : Make(fam, d).cs[c].exp = <<Make(fam, d).m>>
                     /\ fam \in {"verbs", "surplus", "again", "before", "after", "value"} => \A c \in 1..Len(Make(fam, d).cs) : Make(fam, d).cs[c].exp # <<>> \/ Make(fam, d).cs[c].args = <<>>)
=============================================================================
