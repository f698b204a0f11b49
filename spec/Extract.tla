------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* Template extraction.  A template is a tree of nodes [t, s, y, k]: tag,     *)
(* text, style, kids.  Walk renders a node and collects the calls in it with  *)
(* the lines they may be reported at; Uses turns the calls of all files into  *)
(* uses of messages, following the keyword declarations; Expected merges the  *)
(* uses into the entries the written template has to have.                    *)
(*                                                                           *)
(* operands  str (value s; y 1 raw, 2, 3 escaped), const (s verbatim),      *)
(*           id, field, var (s as written), paren <<pipe>>,                    *)
(*           chain <<pipe>> (s ".A.T")                                         *)
(* pipe      s declaration ("$x := "), kids cmd; cmd: kids operands             *)
(* nodes     text, cmt, word (break, continue), act <<pipe>>,                   *)
(*           if/range/with <<pipe, list>> or <<pipe, list, else part>>, the     *)
(*           else part a list or a node elif/elwith, def <<list>>,              *)
(*           block <<pipe, list>>, tmpl <<>> or <<pipe>>, list                  *)
(***************************************************************************)
EXTENDS Keywords, FiniteSets

Node(t, s, y, k) == [t |-> t, s |-> s, y |-> y, k |-> k]
Joined(ss, sep) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o sep \o x, <<>>, ss)
NL(b) == Len(SelectSeq(b, LAMBDA c : c = 10))

(* rendering of operands ------------------------------------------------------*)
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
QuoteByte(c, all) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 9 -> <<92, 116>>
                       [] c < 32 \/ c = 127 \/ (all /\ c < 128) -> <<92, 120, Hex(c \div 16), Hex(c % 16)>>
                       [] OTHER -> <<c>>
StrText(s, y) == IF y = 1 THEN <<96>> \o s \o <<96>>
                 ELSE <<34>> \o Concat([i \in 1..Len(s) |-> IF y = 3 THEN <<92, 120, Hex(s[i] \div 16), Hex(s[i] % 16)>> ELSE QuoteByte(s[i], y = 2 /\ i % 2 = 1)]) \o <<34>>
RECURSIVE OpText(_), PipeText(_)
CmdText(c) == Joined([i \in 1..Len(c.k) |-> OpText(c.k[i])], <<32>>)
PipeText(p) == p.s \o Joined([i \in 1..Len(p.k) |-> CmdText(p.k[i])], <<32, 124, 32>>)
OpText(o) == CASE o.t = "str" -> StrText(o.s, o.y)
               [] o.t = "paren" -> <<40>> \o PipeText(o.k[1]) \o <<41>>
               [] o.t = "chain" -> <<40>> \o PipeText(o.k[1]) \o <<41>> \o o.s
               [] OTHER -> o.s

(* calls ----------------------------------------------------------------------*)
(* the literal an operand stands for: <<>> or <<text>>                          *)
RECURSIVE LitOf(_)
LitOf(o) == CASE o.t = "str" -> <<o.s>>
              [] o.t = "paren" -> IF Len(o.k[1].k) = 1 /\ Len(o.k[1].k[1].k) = 1 THEN LitOf(o.k[1].k[1].k[1]) ELSE <<>>
              [] OTHER -> <<>>
AfterDot(s) == LET ds == {i \in 1..Len(s) : s[i] = 46}
               IN IF ds = {} THEN <<>> ELSE From(s, (CHOOSE i \in ds : \A j \in ds : i >= j) + 1)
Callee(o) == CASE o.t = "id" -> o.s [] o.t \in {"field", "var", "chain"} -> AfterDot(o.s) [] OTHER -> <<>>
CallWord == Bs("call")
Call(name, args, sure) == [name |-> name, args |-> args, sure |-> sure]
CmdCalls(c, piped) ==       \* piped: <<>> or <<literal>> handed on by the pipeline
  LET lits == TLCEval([i \in 1..Len(c.k) |-> LitOf(c.k[i])] \o (IF piped = <<>> THEN <<>> ELSE <<piped>>))
      head(i) == i = 1 \/ (i = 2 /\ c.k[1].t = "id" /\ c.k[1].s = CallWord)
      one(i) == IF Callee(c.k[i]) = <<>> THEN <<>> ELSE <<Call(Callee(c.k[i]), From(lits, i + 1), head(i))>>
  IN Concat([i \in 1..Len(c.k) |-> one(i)])
RECURSIVE PipeCalls(_)
InnerCalls(c) == Concat([i \in 1..Len(c.k) |-> IF c.k[i].t \in {"paren", "chain"} THEN PipeCalls(c.k[i].k[1]) ELSE <<>>])
PipeCalls(p) ==
  Concat([i \in 1..Len(p.k) |->
     InnerCalls(p.k[i]) \o
     CmdCalls(p.k[i], IF i = 1 THEN <<>> ELSE IF Len(p.k[i - 1].k) = 1 THEN LitOf(p.k[i - 1].k[1]) ELSE <<>>)])

(* rendering of nodes, with the calls and their lines ---------------------------*)
(* styles of an action: 1 trims to the left, 2 to the right, 4 on lines of its own *)
Bit(y, v) == (y \div v) % 2 = 1
Opening(d, y) == d.l \o (IF Bit(y, 1) THEN <<45, 32>> ELSE <<>>) \o (IF Bit(y, 4) THEN <<10>> ELSE <<>>)
Closing(d, y) == (IF Bit(y, 4) THEN <<10>> ELSE <<>>) \o (IF Bit(y, 2) THEN <<32, 45>> ELSE <<>>) \o d.r
Tag(d, y, body) == Opening(d, y) \o body \o Closing(d, y)
W(text, found) == [text |-> text, found |-> found]
Adv(p, text) == [line |-> p.line + NL(text), at |-> p.at + Len(text)]
Start == [line |-> 1, at |-> 0]
Found(calls, p, text, tm) == [i \in 1..Len(calls) |->
    [call |-> calls[i], lo |-> p.line, hi |-> p.line + NL(text), at |-> p.at, tm |-> tm]]
Piped(d, n, word, pipe, p, tm) == LET tx == TLCEval(Tag(d, n.y, word \o PipeText(pipe)))
                                  IN W(tx, TLCEval(Found(PipeCalls(pipe), p, tx, tm)))
WordIf == Bs("if ")
WordRange == Bs("range ")
WordWith == Bs("with ")
WordElse == Bs("else")
WordEnd == Bs("end")
RECURSIVE Walk(_, _, _, _), WalkAll(_, _, _, _)
WalkAll(d, ns, p, tm) ==
  FoldLeft(LAMBDA a, n : LET w == TLCEval(Walk(d, n, Adv(p, a.text), tm)) IN W(a.text \o w.text, a.found \o w.found), W(<<>>, <<>>), ns)
Then(a, b) == W(a.text \o b.text, a.found \o b.found)
TwoParts(d, n, head, p, tm) ==
  LET body == TLCEval(WalkAll(d, n.k[2].k, Adv(p, head.text), tm))
      hb == Then(head, body)
      els == IF Len(n.k) < 3 THEN W(<<>>, <<>>)
             ELSE IF n.k[3].t = "list"
             THEN LET tx == Tag(d, n.y, WordElse) IN TLCEval(Then(W(tx, <<>>), WalkAll(d, n.k[3].k, Adv(Adv(p, hb.text), tx), tm)))
             ELSE TLCEval(Walk(d, n.k[3], Adv(p, hb.text), tm))
  IN Then(hb, els)
Closed(d, n, w) == Then(w, W(Tag(d, n.y, WordEnd), <<>>))
Name(s) == StrText(s, 0)
Walk(d, n, p, tm) ==
  CASE n.t = "text" -> W(n.s, <<>>)
    [] n.t = "cmt" -> W(d.l \o (IF Bit(n.y, 1) THEN <<45, 32>> ELSE <<>>) \o <<47, 42>> \o n.s \o <<42, 47>>
                        \o (IF Bit(n.y, 2) THEN <<32, 45>> ELSE <<>>) \o d.r, <<>>)
    [] n.t = "word" -> W(Tag(d, n.y, n.s), <<>>)
    [] n.t = "act" -> Piped(d, n, <<>>, n.k[1], p, tm)
    [] n.t = "if" -> Closed(d, n, TwoParts(d, n, Piped(d, n, WordIf, n.k[1], p, tm), p, tm))
    [] n.t = "range" -> Closed(d, n, TwoParts(d, n, Piped(d, n, WordRange, n.k[1], p, tm), p, tm))
    [] n.t = "with" -> Closed(d, n, TwoParts(d, n, Piped(d, n, WordWith, n.k[1], p, tm), p, tm))
    [] n.t = "elif" -> TwoParts(d, n, Piped(d, n, Bs("else if "), n.k[1], p, tm), p, tm)
    [] n.t = "elwith" -> TwoParts(d, n, Piped(d, n, Bs("else with "), n.k[1], p, tm), p, tm)
    [] n.t = "tmpl" -> IF n.k = <<>> THEN W(Tag(d, n.y, Bs("template ") \o Name(n.s)), <<>>)
                       ELSE Piped(d, n, Bs("template ") \o Name(n.s) \o <<32>>, n.k[1], p, tm)
    [] n.t = "def" -> LET h == Tag(d, n.y, Bs("define ") \o Name(n.s))
                      IN Closed(d, n, Then(W(h, <<>>), WalkAll(d, n.k[1].k, Adv(p, h), n.s)))
    [] n.t = "block" -> LET h == TLCEval(Piped(d, n, Bs("block ") \o Name(n.s) \o <<32>>, n.k[1], p, tm))
                        IN Closed(d, n, Then(h, WalkAll(d, n.k[2].k, Adv(p, h.text), n.s)))
    [] n.t = "list" -> WalkAll(d, n.k, p, tm)

(* uses of messages -------------------------------------------------------------*)
Max3(a, b, c) == LET m == IF a > b THEN a ELSE b IN IF m > c THEN m ELSE c
Use(kw, f, x, file) ==       \* <<>> or <<use>>
  LET as == x.call.args
      need == {kw.c, kw.id, kw.pl} \ {0}
      At(p) == IF p = 0 THEN <<>> ELSE as[p][1]
  IN IF kw.name # x.call.name \/ Len(as) < Max3(kw.c, kw.id, kw.pl) THEN <<>>
     ELSE IF \E p \in need : as[p] = <<>> THEN <<>>
     ELSE IF kw.c = 0 /\ At(kw.id) = <<>> THEN <<>>                                     \* an empty message
     ELSE IF kw.c > 0 /\ At(kw.c) = <<>> /\ At(kw.id) = <<>> THEN <<>>
     ELSE << [c |-> At(kw.c), id |-> At(kw.id), pl |-> kw.pl > 0, id2 |-> At(kw.pl), file |-> file, lo |-> x.lo, hi |-> x.hi, at |-> x.at,
              tm |-> x.tm,
              \* not asked for: names that are only arguments, empty messages with a context, empty plurals
              sure |-> x.call.sure /\ At(kw.id) # <<>> /\ (kw.pl = 0 \/ At(kw.pl) # <<>>)] >>
UsesOf(kws, walked, file) ==
  Concat([i \in 1..Len(walked.found) |-> Concat([j \in 1..Len(kws) |-> Use(kws[j], j, walked.found[i], file)])])

(* merging ------------------------------------------------------------------------*)
(* uses in order of files, and in each file in order of place                      *)
FirstPlaces(us, byname) ==   \* the uses that may be the first one of the entry
  LET f == us[1].file
      inF == SelectSeq(us, LAMBDA u : u.file = f)
      tms == {inF[i].tm : i \in 1..Len(inF)}
      tm == CHOOSE x \in tms : \A y \in tms : x = y \/ LexLt(x, y)
      cand == IF byname THEN SelectSeq(inF, LAMBDA u : u.tm = tm) ELSE inF
  IN {i \in 1..Len(cand) : cand[i].at = cand[1].at} \X {cand}
FirstOf(us) == {x[2][x[1]] : x \in FirstPlaces(us, TRUE) \cup FirstPlaces(us, FALSE)}
HasPct(b) == \E i \in 1..Len(b) : b[i] = 37
EntryOf(us) ==       \* what must and may hold of the entry of the uses us, all of one context and message
  LET firsts == TLCEval(FirstOf(us))
      pls == {u.pl : u \in firsts}
      clear == (\A i \in 1..Len(us) : us[i].sure) /\ Cardinality(pls) = 1
      kept == IF clear THEN SelectSeq(us, LAMBDA u : u.pl \in pls) ELSE us
      same == {u \in firsts : u.pl}
  IN [c |-> us[1].c, id |-> us[1].id, clear |-> clear, must |-> \E i \in 1..Len(us) : us[i].sure,
      pl |-> clear /\ kept[1].pl,
      id2s |-> SetToSeq({u.id2 : u \in same}),
      pct |-> \E i \in 1..Len(us) : HasPct(us[i].id) \/ HasPct(us[i].id2),          \* may be flagged as a format
      occ |-> [i \in 1..Len(kept) |-> [file |-> kept[i].file, lo |-> kept[i].lo, hi |-> kept[i].hi]],
      \* uses that have to be reported as conflicting
      conflict |-> clear /\ Len(kept) < Len(us)]
Expected(us) ==
  LET keys == {<<us[i].c, us[i].id>> : i \in 1..Len(us)}
      of(k) == SelectSeq(us, LAMBDA u : u.c = k[1] /\ u.id = k[2])
      ks == SetToSeq(keys)
  IN [i \in 1..Len(ks) |-> EntryOf(of(ks[i]))]

(* judging observed entries obs: [c, id, pl, id2, occ: <<[file, line]>>, fl: flagged]  *)
Agrees(o, e) ==
  /\ \A i \in 1..Len(o.occ) : \E j \in 1..Len(e.occ) :
        e.occ[j].file = o.occ[i].file /\ e.occ[j].lo <= o.occ[i].line /\ o.occ[i].line <= e.occ[j].hi
  /\ (HasPct(o.id) \/ HasPct(o.id2)) => o.fl
  /\ o.fl => e.pct
  /\ e.clear => /\ o.pl = e.pl
                /\ o.pl => \E i \in 1..Len(e.id2s) : e.id2s[i] = o.id2
                /\ \A j \in 1..Len(e.occ) : \E i \in 1..Len(o.occ) :
                     e.occ[j].file = o.occ[i].file /\ e.occ[j].lo <= o.occ[i].line /\ o.occ[i].line <= e.occ[j].hi
Accepts(obs, exp) ==
  /\ \A i \in 1..Len(obs) : \E j \in 1..Len(exp) : exp[j].c = obs[i].c /\ exp[j].id = obs[i].id /\ Agrees(obs[i], exp[j])
  /\ \A j \in 1..Len(exp) : exp[j].must => \E i \in 1..Len(obs) : exp[j].c = obs[i].c /\ exp[j].id = obs[i].id
  /\ \A i, j \in 1..Len(obs) : i # j => <<obs[i].c, obs[i].id>> # <<obs[j].c, obs[j].id>>
=============================================================================
