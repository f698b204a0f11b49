----------------------------- MODULE RegistryBig -----------------------------
(* C05, C06, C17: long scripted histories over the registry: many domains, many  *)
(* rebindings and removals, long chains of views of views, many views of one       *)
(* origin, many global instances.  Every step is a transition of Registry; what     *)
(* is observable is emitted after the steps in Marks.                              *)
EXTENDS Worlds
CONSTANTS Scripts, MaxSteps, Marks, DomCount
VARIABLES s, hist, script
vars == <<s, hist, script>>

DomNo(i) == "d" \o ToString(1 + ((i - 1) % DomCount))
BigDoms == <<"", "default", "x">> \o [i \in 1..DomCount |-> DomNo(i)]
BigDefs == CSVWrite("%1$s", <<ToJson([k |-> "defs", probes |-> Probes, doms |-> BigDoms,
                 srcs |-> [x \in Srcs |-> [k \in 1..Len(Files(x)) |->
                    [lang |-> Files(x)[k].lang, hdr |-> RuleText(Files(x)[k].rule), ents |-> Files(x)[k].ents]]]])>>, IOEnv.BIGDEFS)
BigObs(t) == [Obs(t) EXCEPT !.has = [k \in 1..Len(BigDoms) |-> HasDom(t, BigDoms[k])]]
Spell == <<"zh", "fr", "pt_BR", "zh-Hans", "ja", "en_US">>
LangNo(i) == Spell[1 + (i % 6)]
SrcNo(i) == CASE i % 4 = 0 -> "A" [] i % 4 = 1 -> "B" [] i % 4 = 2 -> "D" [] i % 4 = 3 -> "C"
Op(op, i, d, sp, x, via) == [op |-> op, i |-> i, d |-> d, sp |-> sp, x |-> x, via |-> via]
BindOp(i, d, x) == Op("bind", i, d, None, x, IF i = s.g THEN "p" ELSE "m")
Newest == Len(s.inst)

StepNo(f, n) ==
  CASE f = "bindall" -> (BindOp(1, DomNo(n), SrcNo(n)))
    [] f = "domains" -> (CASE n % 5 = 4 -> Op("setdom", 1, DomNo(n - 2), None, None, "m")
                          [] n % 5 = 0 -> Op("remove", 1, DomNo(n - 2), None, None, "p")
                          [] OTHER -> BindOp(1, DomNo(n), SrcNo(n)))
    [] f = "removeall" -> (IF 2 * n <= MaxSteps THEN BindOp(1, DomNo(n), SrcNo(n)) ELSE Op("remove", 1, DomNo(n - (MaxSteps \div 2)), None, None, "m"))
    [] f = "dropcurrent" -> (CASE n % 4 = 3 -> Op("setdom", 1, DomNo(IF n % 8 = 3 THEN n - 1 ELSE n - 6), None, None, "m")
                              [] n % 4 = 0 -> Op("remove", 1, s.inst[1].dom, None, None, IF n % 8 = 0 THEN "m" ELSE "p")
                              [] OTHER -> BindOp(1, DomNo(n), SrcNo(n)))
    [] f = "rebind" -> (IF n = 1 THEN Op("setdom", 1, "d1", None, None, "m")
                       ELSE IF n % 3 = 0 THEN Op("setloc", 1, None, LangNo(n), None, "p") ELSE BindOp(1, "d1", IF n % 5 = 0 THEN "N" ELSE SrcNo(n)))
    [] f = "clears" -> (CASE n % 5 = 0 -> Op("clear", 1, None, None, None, "m")
                         [] n % 5 = 4 -> Op("setdom", 1, DomNo(n - 1), None, None, "p")
                         [] OTHER -> BindOp(1, DomNo(n), SrcNo(n)))
    [] f = "chain" -> (CASE n % 4 = 1 -> BindOp(Newest, IF n % 8 = 1 THEN "d1" ELSE "d2", SrcNo(n))
                        [] n % 4 = 2 -> Op("L", Newest, None, LangNo(n), None, "m")
                        [] n % 4 = 3 -> Op("D", Newest, IF n % 8 = 3 THEN "d1" ELSE "d2", None, None, "m")
                        [] n % 4 = 0 -> Op(IF n % 8 = 0 THEN "setloc" ELSE "setsrc", Newest - 1, None, LangNo(n), None, "m"))
    [] f = "fanout" -> (CASE n % 3 = 1 -> BindOp(1, "d1", SrcNo(n))
                         [] n % 3 = 2 -> Op("D", 1, "d1", None, None, "m")
                         [] n % 3 = 0 -> Op("L", IF n % 2 = 0 THEN 1 ELSE 2, None, LangNo(n), None, "m"))
    [] f = "contexts" -> (CASE n % 3 = 1 -> Op("load", s.g, None, None, SrcNo(n), "p")
                           [] n % 3 = 2 -> Op("ctx", s.g, IF n % 2 = 0 THEN "d1" ELSE None, LangNo(n), None, "p")
                           [] n % 3 = 0 -> BindOp(Newest, IF n % 2 = 0 THEN "d1" ELSE "default", SrcNo(n + 1)))
    [] f = "globals" -> (CASE n % 4 = 1 -> Op("new", 0, None, None, None, "m")
                          [] n % 4 = 2 -> Op("setglobal", Newest, None, None, None, "p")
                          [] n % 4 = 3 -> Op("load", s.g, None, None, SrcNo(n), "p")
                          [] n % 4 = 0 -> Op("setloc", s.g, None, LangNo(n), None, "p"))
    [] f = "langs" -> (IF n % 5 = 1 THEN BindOp(1, "default", SrcNo(n \div 5))
                      ELSE Op(IF n % 5 = 2 THEN "setsrc" ELSE "setloc", 1, None, LangNo(n), None, IF n % 2 = 0 THEN "m" ELSE "p"))
Emit == (Len(hist') \notin Marks) \/ CSVWrite("%1$s", <<ToJson([k |-> "reg", sys |-> Sys, h |-> hist', g |-> s'.g,
                                                    obs |-> [i \in 1..Len(s'.inst) |-> BigObs(s'.inst[i])]])>>, IOEnv.CASES)
Init == s = [inst |-> <<New(Sys)>>, g |-> 1] /\ hist = <<>> /\ script \in Scripts /\ (script # (CHOOSE x \in Scripts : TRUE) \/ BigDefs)
Next == /\ Len(hist) < MaxSteps
        /\ UNCHANGED script
        /\ LET o == StepNo(script, Len(hist) + 1)
               l == IF o.op = "setsrc" THEN SrcLangOf(o.sp) ELSE LocaleOf(o.sp)
               r == TLCEval(Do(s, [op |-> o.op, i |-> o.i, d |-> o.d, l |-> l, src |-> IF o.x = None THEN Source("N") ELSE Source(o.x)], Sys))
           IN /\ s' = r.st
              /\ hist' = Append(hist, [op |-> o.op, i |-> o.i, d |-> o.d, l |-> o.sp, s |-> o.x, via |-> o.via, ret |-> r.ret])
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
Isolation == [][\A i \in 1..Len(s.inst) : s'.inst[i] = s.inst[i] \/ (i = (IF Act.op = "load" THEN s.g ELSE Act.i) /\ Len(s'.inst) = Len(s.inst) /\ s'.g = s.g)]_vars
DomainSet == [][\A i \in 1..Len(s.inst) : DomNames(s'.inst[i]) # DomNames(s.inst[i]) => Act.op \in {"bind", "load", "remove", "clear"}]_vars
Consistent == \A i \in 1..Len(s.inst) : Used(s.inst[i]) \in LangSet(s.inst[i])
==============================================================================
