----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Processes that share instances and catalogs.  A process asks them         *)
(* questions, derives a view from them and may do with its own view whatever  *)
(* it likes.  Any interleaving of the calls is a behaviour; in none of them    *)
(* does a process see another one, and nothing shared is ever changed.         *)
(*                                                                          *)
(* Emitted are the programs with their answers (Mode "free": they are run on   *)
(* goroutines without synchronisation, under the race detector) or the         *)
(* interleavings themselves (Mode "steps": goroutines taking turns).            *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS Mode, Procs, MaxOps,   \* processes 1..Procs, operations of each
          Scenes, Pool           \* worlds to start from, set of operations
VARIABLES sc, st, own, prog, ans, order
vars == <<sc, st, own, prog, ans, order>>

(* scenes: the steps that set a world up -------------------------------------------*)
B(op, i, d, l, x) == [op |-> op, i |-> i, d |-> d, l |-> l, s |-> x, via |-> "m", ret |-> Void]
SetUp(x) ==
  CASE x = "empty" -> << B("D", 1, "d", None, None) >>
    [] x = "plain" -> << B("bind", 1, "default", None, "A"), B("setloc", 1, None, "fr", None), B("bind", 1, "d", None, "D"),
                         B("L", 1, None, "zh", None) >>
    [] x = "other" -> << B("bind", 1, "d", None, "C"), B("bind", 1, "default", None, "D"), B("setdom", 1, "d", None, None), B("setloc", 1, None, "zh", None),
                         B("D", 1, "default", None, None), B("setloc", 2, None, "ja", None), B("setsrc", 2, None, "pt", None) >>
World(x) == FoldLeft(LAMBDA a, b : Do(a, [op |-> b.op, i |-> b.i, d |-> b.d, l |-> IF b.op = "setsrc" THEN SrcLangOf(b.l) ELSE LocaleOf(b.l),
                                          src |-> IF b.s = None THEN Source("N") ELSE Source(b.s)], Sys).st,
                     [inst |-> <<New(Sys)>>, g |-> 1], SetUp(x))

(* catalogs used on their own: with a header, without one, without anything ---------*)
RawFiles == [h |-> [lang |-> "fr", rule |-> "mod3", ents |-> Full("H")], n |-> [lang |-> "", rule |-> "none", ents |-> Full("N")],
             e |-> [lang |-> "", rule |-> "none", ents |-> <<>>], r |-> [lang |-> "ja", rule |-> "ne1", ents |-> Part("R")]]
AsInst(f) == [loc |-> "l", dom |-> "default", src |-> "en_US",
              doms |-> ("default" :> << <<"l", MkCat(f)>> >>)]

(* operations: [op, on, d, l, s, k]: on "p" package, "1", "2" a shared instance,      *)
(* "own" the process' view, or a catalog                                              *)
O(op, on) == [op |-> op, on |-> on, d |-> None, l |-> None, s |-> None, k |-> 0]
Join(ss) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o " " \o x, "", ss)
Reply(t, o) ==     \* the answer of a question to the instance t
  LET p == Probes[o.k] IN
  CASE o.op = "x" -> AnsX(t, p.c, p.id, p.arg)
    [] o.op = "xn" -> AnsXN(t, p.c, p.id, p.id2, <<p.hi, p.n>>, p.arg)
    [] o.op = "loc" -> t.loc [] o.op = "dom" -> t.dom [] o.op = "src" -> t.src [] o.op = "used" -> Used(t)
    [] o.op = "locs" -> Join(SelectSeq(Order, LAMBDA l : l \in LangSet(t)))
    [] o.op = "doms" -> Join(SelectSeq(AllDoms, LAMBDA d : HasDom(t, d)))
    [] o.op = "match" -> t.loc                    \* only asked when the language is supported
    [] o.op = "req" -> LocaleOf(o.l)              \* likewise
    [] o.op = "tags" -> "second"                  \* the second of two languages nobody asked for before, asked for
Questions == {"x", "xn", "loc", "dom", "src", "used", "locs", "doms", "match", "req", "tags"}
Derivations == {"L", "D", "copy", "ctx"}
Changes == {"setdom", "setloc", "setsrc", "bind", "remove", "clear"}
OfFile(o) == o.on \in DOMAIN RawFiles
IndexOf(on) == IF on = "p" THEN 1 ELSE IF on = "1" THEN 1 ELSE 2
Shared(w, on) == w.inst[IndexOf(on)]
(* one call in the world w with the process' view v (<<>> or <<instance>>):            *)
(* the world, the view and the answer afterwards                                       *)
Call(w, v, o) ==
  IF OfFile(o)
  THEN LET f == RawFiles[o.on]
       IN [w |-> w, v |-> v, a |-> CASE o.op = "lang" -> f.lang
                                     [] o.op = "hdr" -> RuleText(f.rule)
                                     [] o.op \in {"po", "pot", "mo", "sorted"} -> "same as alone"
                                     [] OTHER -> Reply(AsInst(f), o)]
  ELSE IF o.op \in Questions
  THEN [w |-> w, v |-> v, a |-> Reply(IF o.on = "own" THEN v[1] ELSE Shared(w, o.on), o)]
  ELSE LET n == Len(w.inst)
           big == [inst |-> w.inst \o v, g |-> w.g]
           r == Do(big, [op |-> o.op, i |-> IF o.on = "own" THEN n + 1 ELSE IndexOf(o.on), d |-> o.d,
                         l |-> IF o.op = "setsrc" THEN SrcLangOf(o.l) ELSE LocaleOf(o.l),
                         src |-> IF o.s = None THEN Source("N") ELSE Source(o.s)], Sys)
       IN [w |-> [inst |-> SubSeq(r.st.inst, 1, n), g |-> r.st.g], v |-> <<r.st.inst[Len(r.st.inst)]>>, a |-> r.ret]
Allowed(w, v, o) ==
  /\ o.on = "own" => v # <<>>
  /\ o.op = "match" => LET t == IF o.on = "own" THEN v[1] ELSE Shared(w, o.on) IN t.loc \in LangSet(t)
  /\ o.op = "req" => LocaleOf(o.l) \in LangSet(w.inst[1])

(* pools of operations ---------------------------------------------------------------*)
Looks(on, ks) == {[O("x", on) EXCEPT !.k = k] : k \in ks} \cup {[O("xn", on) EXCEPT !.k = k] : k \in ks}
Plainly(on) == {[O(q, on) EXCEPT !.k = 1] : q \in {"loc", "dom", "src", "used", "locs", "doms", "match"}}
Views(on) == {[O("L", on) EXCEPT !.l = x] : x \in {"fr", "ja"}} \cup {[O("D", on) EXCEPT !.d = x] : x \in {"d", "x"}}
PkgViews == {O("copy", "p"), [O("ctx", "p") EXCEPT !.d = "d", !.l = "zh"], [O("ctx", "p") EXCEPT !.l = "pt"]}
Reqs == {[O("req", "p") EXCEPT !.l = x, !.k = 1] : x \in {"FR-fr", "zh-cn", "ja", "en"}}
Files2(ks) == UNION {Looks(f, ks) \cup {[O(q, f) EXCEPT !.k = 1] : q \in {"lang", "hdr", "po", "pot", "mo", "sorted"}} : f \in DOMAIN RawFiles}
OwnChanges == {[O("setdom", "own") EXCEPT !.d = "d"], [O("setloc", "own") EXCEPT !.l = "zh"], [O("setsrc", "own") EXCEPT !.l = "de"],
               [O("bind", "own") EXCEPT !.d = "default", !.s = "B"], [O("bind", "own") EXCEPT !.d = "d", !.s = "A"],
               [O("remove", "own") EXCEPT !.d = "default"], [O("remove", "own") EXCEPT !.d = "d"], O("clear", "own")}
Chosen == CASE Pool = "wide" -> Looks("p", {1, 4, 6, 9}) \cup Looks("1", {3, 5, 8}) \cup Looks("2", {2, 3, 7}) \cup Plainly("p") \cup Plainly("2")
                               \cup Views("p") \cup Views("2") \cup PkgViews \cup Reqs
            [] Pool = "files" -> Files2({1, 3, 5})
            [] Pool = "mixed" -> Looks("p", {5}) \cup Looks("2", {5}) \cup Looks("h", {5}) \cup Looks("n", {5}) \cup {O("locs", "p"), O("copy", "p"),
                                 [O("match", "1") EXCEPT !.k = 1], [O("tags", "p") EXCEPT !.k = 1], [O("req", "p") EXCEPT !.l = "FR-fr", !.k = 1], [O("hdr", "n") EXCEPT !.k = 1]}
            [] Pool = "cold" -> Looks("p", {5}) \cup Looks("2", {1}) \cup Looks("h", {5}) \cup Looks("n", {1})
                                \cup {[O(q, "p") EXCEPT !.k = 1] : q \in {"locs", "tags", "match", "used"}}
                                \cup {[O(q, "r") EXCEPT !.k = 1] : q \in {"po", "mo", "hdr", "pot"}}
                                \cup {[O("req", "p") EXCEPT !.l = "FR-fr", !.k = 1], [O("L", "p") EXCEPT !.l = "ja"], [O("L", "p") EXCEPT !.l = ""], [O("D", "2") EXCEPT !.d = "d"],
                                       [O("ctx", "p") EXCEPT !.d = "d", !.l = "zh"]}
            [] Pool = "views" -> {[O("L", "2") EXCEPT !.l = "fr"], [O("D", "p") EXCEPT !.d = "d"], O("copy", "p")} \cup OwnChanges
                                 \cup {[O("x", "own") EXCEPT !.k = 1], [O("xn", "own") EXCEPT !.k = 4], [O("locs", "own") EXCEPT !.k = 1],
                                       [O("xn", "p") EXCEPT !.k = 5], [O("doms", "2") EXCEPT !.k = 1]}
            [] Pool = "fewturns" -> {[O("L", "p") EXCEPT !.l = "ja"], [O("setloc", "own") EXCEPT !.l = "zh"], O("clear", "own"), [O("xn", "own") EXCEPT !.k = 4],
                                     [O("xn", "p") EXCEPT !.k = 5]}
            [] Pool = "turns" -> {[O("L", "p") EXCEPT !.l = "ja"], [O("D", "2") EXCEPT !.d = "d"], [O("setloc", "own") EXCEPT !.l = "zh"], O("clear", "own"),
                                  [O("bind", "own") EXCEPT !.d = "d", !.s = "B"], [O("xn", "own") EXCEPT !.k = 4], [O("xn", "p") EXCEPT !.k = 5],
                                  [O("req", "p") EXCEPT !.l = "FR-fr", !.k = 1]}
Pooled == SetToSeq(Chosen)        \* in some order, to tell programs of equal processes apart
At(o) == CHOOSE i \in 1..Len(Pooled) : Pooled[i] = o

(* behaviours -------------------------------------------------------------------------*)
Ps == 1..Procs
Init == /\ sc \in Scenes /\ st = World(sc) /\ own = [p \in Ps |-> <<>>] /\ prog = [p \in Ps |-> <<>>] /\ ans = [p \in Ps |-> <<>>]
        /\ order = <<>> /\ DefsOnce
Do1(p, o) ==
  LET c == TLCEval(Call(st, own[p], o))
  IN /\ st' = c.w /\ own' = [own EXCEPT ![p] = c.v] /\ prog' = [prog EXCEPT ![p] = Append(@, o)] /\ ans' = [ans EXCEPT ![p] = Append(@, c.a)]
     /\ order' = Append(order, p) /\ UNCHANGED sc
Next == \E p \in Ps : Len(prog[p]) < MaxOps /\ \E o \in Chosen : Allowed(st, own[p], o) /\ Do1(p, o)
Spec == Init /\ [][Next]_vars
Programs == <<sc, st, own, prog, ans>>      \* VIEW that forgets the order

Complete == \A p \in Ps : Len(prog'[p]) = MaxOps
Numbers(p) == FoldLeft(LAMBDA a, o : a * 100 + At(o), 0, prog'[p])
Sorted == \A p \in Ps \ {1} : Numbers(p - 1) <= Numbers(p)      \* processes are alike
Emit == IF Complete /\ Sorted /\ (Mode = "steps" \/ order'[Len(order')] = Procs)      \* each set of programs once
        THEN CSVWrite("%1$s", <<ToJson([k |-> "conc", setup |-> SetUp(sc), progs |-> prog', answers |-> ans',
                order |-> IF Mode = "steps" THEN order' ELSE <<>>,
                raw |-> [f \in DOMAIN RawFiles |-> [lang |-> RawFiles[f].lang, hdr |-> RuleText(RawFiles[f].rule), ents |-> RawFiles[f].ents]],
                obs |-> [i \in 1..Len(st'.inst) |-> Obs(st'.inst[i])], g |-> st'.g])>>, IOEnv.CASES)
        ELSE TRUE
----------------------------------------------------------------------------
(* what makes the free runs decidable: the answers and what remains do not depend   *)
(* on the interleaving                                                              *)
SharedUnchanged == st = World(sc)
RECURSIVE Alone(_, _, _, _)
Alone(w, v, os, as) == IF os = <<>> THEN as ELSE LET c == TLCEval(Call(w, v, Head(os))) IN Alone(c.w, c.v, SubSeq(os, 2, Len(os)), Append(as, c.a))
Sequential == \A p \in Ps : ans[p] = Alone(World(sc), <<>>, prog[p], <<>>)
=============================================================================
