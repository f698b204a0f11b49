----------------------------- MODULE RegistryGen -----------------------------
(* Explores the registry and emits every transition: the shortest history     *)
(* found to its state, the operation, and everything that must be observable  *)
(* afterwards on every instance.                                              *)
EXTENDS Worlds

CONSTANTS MaxSteps, MaxInst,
          Ops,          \* names of the operations used
          Doms, Spells

VARIABLES s, hist
vars == <<s, hist>>

Case(st, h) == [k |-> "reg", sys |-> Sys, h |-> h, g |-> st.g, obs |-> [i \in 1..Len(st.inst) |-> Obs(st.inst[i])]]
Emit == CSVWrite("%1$s", <<ToJson(Case(s', hist'))>>, IOEnv.CASES)

Init == /\ s = [inst |-> <<New(Sys)>>, g |-> 1] /\ hist = <<>> /\ DefsOnce

(* one step: what the driver does (sp: spelling, via: method or package-level) *)
Step(op, i, d, sp, x, via) ==
  LET l == IF op = "setsrc" THEN SrcLangOf(sp) ELSE LocaleOf(sp)
      r == Do(s, [op |-> op, i |-> i, d |-> d, l |-> l, src |-> IF x = None THEN Source("N") ELSE Source(x)], Sys)
  IN /\ op \in Ops
     /\ s' = r.st
     /\ hist' = Append(hist, [op |-> op, i |-> i, d |-> d, l |-> sp, s |-> x, via |-> via, ret |-> r.ret])

Insts == 1..Len(s.inst)
Via(i) == IF i = s.g THEN {"m", "p"} ELSE {"m"}
Can == Len(hist) < MaxSteps
Room == Can /\ Len(s.inst) < MaxInst
DoBind   == Can /\ \E i \in Insts, d \in Doms, x \in Srcs : \E v \in Via(i) : Step("bind", i, d, None, x, v)
DoLoad   == Can /\ \E x \in Srcs : Step("load", s.g, None, None, x, "p")
DoRemove == Can /\ \E i \in Insts, d \in Doms \cup {"x"} : \E v \in Via(i) : Step("remove", i, d, None, None, v)
DoClear  == Can /\ \E i \in Insts : \E v \in Via(i) : Step("clear", i, None, None, None, v)
DoSetDom == Can /\ \E i \in Insts, d \in Doms : \E v \in Via(i) : Step("setdom", i, d, None, None, v)
DoSetLoc == Can /\ \E i \in Insts, l \in Spells : \E v \in Via(i) : Step("setloc", i, None, l, None, v)
DoSetSrc == Can /\ \E i \in Insts, l \in Spells : \E v \in Via(i) : Step("setsrc", i, None, l, None, v)
DoNew    == Room /\ Step("new", 0, None, None, None, "m")
DoCopy   == Room /\ Step("copy", s.g, None, None, None, "p")
DoL      == Room /\ \E i \in Insts, l \in Spells : \E v \in Via(i) : Step("L", i, None, l, None, v)
DoD      == Room /\ \E i \in Insts, d \in Doms : \E v \in Via(i) : Step("D", i, d, None, None, v)
DoCtx    == Room /\ \E l \in Spells \cup {None}, d \in Doms \cup {None} : Step("ctx", s.g, d, l, None, "p")
DoGlobal == Can /\ \E i \in Insts \ {s.g} : Step("setglobal", i, None, None, None, "p")
Next == DoBind \/ DoLoad \/ DoRemove \/ DoClear \/ DoSetDom \/ DoSetLoc \/ DoSetSrc
        \/ DoNew \/ DoCopy \/ DoL \/ DoD \/ DoCtx \/ DoGlobal
Spec == Init /\ [][Next]_vars
StateView == s

----------------------------------------------------------------------------
(* Properties of the specification *)
Act == hist'[Len(hist')]
Target(i) == IF Act.op \in {"load"} THEN s.g ELSE Act.i
(* C05: an operation changes at most the instance it is applied to             *)
Isolation == [][\A i \in 1..Len(s.inst) :
                   s'.inst[i] = s.inst[i] \/ (i = Target(i) /\ Len(s'.inst) = Len(s.inst) /\ s'.g = s.g)]_vars
(* C05: a view starts with exactly its origin's settings but the requested one *)
ViewStart == [][Len(s'.inst) > Len(s.inst) =>
                 LET v == s'.inst[Len(s'.inst)] IN
                 /\ Act.op = "new"  => v = New(Sys)
                 /\ Act.op = "copy" => v = s.inst[s.g]
                 /\ Act.op = "L"    => v = [s.inst[Act.i] EXCEPT !.loc = v.loc]
                 /\ Act.op = "D"    => v = [s.inst[Act.i] EXCEPT !.dom = v.dom]
                 /\ Act.op = "ctx"  => v = [s.inst[s.g] EXCEPT !.loc = v.loc, !.dom = v.dom]]_vars
(* C06: only bind, load, remove and clear change the set of domains            *)
DomainSet == [][\A i \in 1..Len(s.inst) : DomNames(s'.inst[i]) # DomNames(s.inst[i])
                   => Act.op \in {"bind", "load", "remove", "clear"}]_vars
(* C01, C17: answers come from the language reported as used, or are the source *)
Consistent == \A i \in 1..Len(s.inst) : LET t == s.inst[i] IN
                 /\ Used(t) \in LangSet(t)
                 /\ Active(t) # <<>> => Used(t) = t.loc
                 /\ Active(t) = <<>> => \A k \in 1..Len(Probes) : LookX(t, Probes[k].c, Probes[k].id) = Probes[k].id
=============================================================================
