----------------------------- MODULE LookupGen -----------------------------
(* C02: one catalog with a header and a plural entry, looked up with every     *)
(* count.  C14: histories of AddEntry, and header texts line by line.          *)
EXTENDS Catalog, Json, CSV, IOUtils
CONSTANTS Mode,       \* "rules", "history" or "lines"
          MaxLen
VARIABLES cat, hist
vars == <<cat, hist>>

E(c, id, pl, id2, s, n) == [c |-> c, id |-> id, pl |-> pl, id2 |-> id2, s |-> s, n |-> n]
Hdr(s) == E(<<>>, <<>>, FALSE, <<>>, s, <<>>)
L64(v) == ToLimbs(v)
Ns == << <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<11>>, <<21>>, <<100>>, <<-1>>, <<-2>>,
         Norm(<<255,255,255,255,255,255,255,127>>), Norm(<<0,0,0,0,0,0,0,128>>),
         Norm(<<1,0,0,0,1,0,0,0>>), Norm(<<2,0,0,128,0,0,0,0>>) >>
NumArg == << [t |-> "int", v |-> Bs("7")] >>
Q(c, id, id2, n, args) == [c |-> c, id |-> id, id2 |-> id2, n |-> n, args |-> args]
Asked(ct, q) ==
  LET pick == TLCEval(PickXN(ct, q.c, q.id, q.id2, q.n))
  IN [c |-> q.c, id |-> q.id, id2 |-> q.id2, n |-> L64(q.n), args |-> q.args,
      x |-> Formatted(PickX(ct, q.c, q.id), q.args),
      xn |-> IF pick = <<>> THEN <<>> ELSE Formatted(pick[1], q.args)]
Ask(ct, qs) == [k \in 1..Len(qs) |-> Asked(ct, qs[k])]

(* C02 ----------------------------------------------------------------------*)
Exprs == { Bs("0"), Bs("n != 1"), Bs("n>1"), Bs("n%3"), Bs("n"), Bs("-1"), Bs("n-1"), Bs("n==1 ? 0 : n==2 ? 1 : 2"),
           Bs("n%10==1 && n%100!=11 ? 0 : 1"), Bs("6/n"), Bs("n/0"), Bs("n +"), Bs(""), Bs("n*4294967296"),
           Bs("(n != 1)"), Bs("(n"), Bs("256*n"), Bs("~n"), Bs("n?1:0") }
Heads == { Bs("nplurals=") \o t \o Bs("; plural=") \o e \o Bs(";") : t \in {Bs("1"), Bs("2"), Bs("3")}, e \in Exprs }
         \cup { <<>>, Bs("nplurals=9; plural=n;"), Bs("nplurals=0; plural=0;"), Bs("nplurals=x; plural=0;"), Bs("plural=0;"), Bs("nplurals=2;"),
                Bs("  nplurals =  2 ;plural= n>1 ;"), Bs("plural=0; nplurals=2;"), Bs("xnplurals=2; plural=0;"), Bs("garbage") }
TxS == Bs("S %d")
Forms == { <<>>, <<Bs("a %d")>>, <<Bs("a"), Bs("b %d")>>, <<Bs("a"), <<>>, Bs("c")>>, <<<<>>>>,
           <<Bs("a"), Bs("b"), Bs("c"), Bs("d %d")>> }
Entries == { E(<<>>, Bs("p %d"), id2 # <<>> \/ n # <<>>, id2, s, n) : id2 \in {<<>>, Bs("ps %d")}, s \in {<<>>, TxS}, n \in Forms }
Other == << E(Bs("c"), Bs("p %d"), FALSE, <<>>, Bs("other"), <<>>), E(<<>>, Bs("ps %d"), FALSE, <<>>, Bs("wrong"), <<>>),
            E(<<>>, Bs("c"), FALSE, <<>>, Bs("p"), <<>>) >>
CatOf(h, e) == << Hdr(Bs("Language: de\nPlural-Forms: ") \o h \o Bs("\nX-Last: y\n")), e >> \o Other
RuleQs == Concat([k \in 1..Len(Ns) |-> << Q(<<>>, Bs("p %d"), Bs("ps %d"), Ns[k], IF k % 2 = 0 THEN NumArg ELSE <<>>),
                                         Q(<<>>, Bs("p %d"), <<>>, Ns[k], IF k % 2 = 1 THEN NumArg ELSE <<>>) >>])
          \o << Q(Bs("c"), Bs("p %d"), Bs("ps %d"), <<2>>, <<>>), Q(Bs("d"), Bs("p %d"), Bs("ps %d"), <<2>>, NumArg),
                Q(Bs("d"), Bs("p %d"), Bs("ps %d"), One, NumArg), Q(<<>>, Bs("absent"), <<>>, <<0>>, <<>>),
                Q(<<>>, Bs("p"), Bs("other"), <<0>>, <<>>), Q(Bs("p %d"), <<>>, Bs("q"), <<5>>, <<>>) >>

(* C14 ----------------------------------------------------------------------*)
Names == << Bs("Language"), Bs("Plural-Forms"), Bs("X"), Bs("language"), <<>>, Bs("Language:") >>
HdrQs == << Q(<<>>, Bs("m"), <<>>, One, <<>>), Q(<<>>, Bs("p"), Bs("ps"), <<0>>, <<>>), Q(<<>>, Bs("p"), Bs("ps"), One, <<>>),
            Q(<<>>, Bs("p"), Bs("ps"), <<2>>, <<>>), Q(Bs("x"), <<>>, <<>>, One, <<>>), Q(<<>>, <<>>, <<>>, One, <<>>) >>
Pool == { Hdr(Bs("Language: fr\nPlural-Forms: nplurals=2; plural=n>1;\nX: 1\n")),
          Hdr(Bs("Language: ru\nPlural-Forms: nplurals=3; plural=n%3;\n")),
          Hdr(Bs("X: 2\nPlural-Forms: nplurals=1; plural=0;")), Hdr(Bs("no header at all")), Hdr(<<>>),
          E(Bs("x"), <<>>, FALSE, <<>>, Bs("Language: xx\nPlural-Forms: nplurals=1; plural=0;\n"), <<>>),
          E(<<>>, Bs("m"), FALSE, <<>>, Bs("Language: yy\n"), <<>>),
          E(<<>>, Bs("p"), TRUE, Bs("ps"), <<>>, <<Bs("p0"), Bs("p1"), Bs("p2")>>),
          E(<<>>, Bs("p"), TRUE, Bs("ps"), <<>>, <<Bs("q0")>>) }
Lines == { Bs("Language: fr\n"), Bs("Language: de"), Bs("  Language :\t de_AT \t\n"), Bs("Language:fr\n"), Bs("X: Language: es\n"),
           Bs("Plural-Forms: nplurals=2; plural=n>1;\n"), Bs("Plural-Forms: nplurals=1; plural=0; \n"), Bs(": v\n"), Bs("\n"),
           Bs("Language: \n"), Bs("language: it\n"), Bs("plain text\n") }
PForms == << E(<<>>, Bs("p"), TRUE, Bs("ps"), <<>>, <<Bs("p0"), Bs("p1"), Bs("p2")>>), E(<<>>, Bs("m"), FALSE, <<>>, Bs("M"), <<>>) >>

Case(ct, adds, qs) ==
  [k |-> "look", adds |-> adds, names |-> Names, lang |-> Lang(ct),
   hs |-> [k \in 1..Len(Names) |-> HeaderOf(ct, Names[k])], qs |-> Ask(ct, qs)]
Put(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.CASES)
Emit == CASE Mode = "rules" -> IF hist' = <<1>>
                                 THEN cat' # <<>> \/ Put(Case(<<>>, <<>>, RuleQs))   \* no catalog at all
                                 ELSE Put(Case(cat', cat', RuleQs))
          [] Mode = "history" -> Put(Case(cat', hist', HdrQs))
          [] Mode = "lines" -> Put(Case(<<Hdr(cat')>> \o PForms, <<Hdr(cat')>> \o PForms, HdrQs))

Init == cat = <<>> /\ hist = <<>>
RulesNext ==
  \/ hist = <<>> /\ \E h \in Heads : cat' = h /\ hist' = <<1>>
  \/ hist = <<1>> /\ \E e \in Entries : cat' = CatOf(cat, e) /\ hist' = <<1, 2>>
Next == CASE Mode = "rules" -> RulesNext
          [] Mode = "history" -> Len(hist) < MaxLen /\ \E e \in Pool : cat' = PutEntry(cat, e) /\ hist' = Append(hist, e)
          [] Mode = "lines" -> Len(hist) < MaxLen /\ \E b \in Lines : cat' = cat \o b /\ hist' = Append(hist, 1)

----------------------------------------------------------------------------
(* C14: only the header entry decides; keys stay unique                        *)
UniqueKeys == Mode = "history" =>
  \A i, j \in 1..Len(cat) : (cat[i].c = cat[j].c /\ cat[i].id = cat[j].id) => i = j
OnlyHeader == [][Mode = "history" /\ (hist'[Len(hist')].c # <<>> \/ hist'[Len(hist')].id # <<>>)
                  => Headers(cat') = Headers(cat) /\ RuleOf(cat') = RuleOf(cat)]_vars
=============================================================================
