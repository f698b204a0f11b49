---------------------------- MODULE PluralRules ----------------------------
(* C03: the plural rules catalogs really carry, and rules one token away from  *)
(* them, at every count of whole blocks: what an evaluator may treat specially *)
(* still has to be what the expression says.                                   *)
EXTENDS Plural, Json, CSV, IOUtils
CONSTANTS NearUpTo,     \* altered rules are swept up to this count
          UpTo,         \* the rules themselves
          Split         \* instead: the rules with a blank inside a token (C04)
LOCAL B == INSTANCE Bytes
VARIABLES rule, var, blk
vars == <<rule, var, blk>>

Rules == <<
  "0", "n!=1", "n>1", "n%10==1&&n%100!=11?0:n!=0?1:2", "n==1?0:n==2?1:2", "n==1?0:(n==0||(n%100>0&&n%100<20))?1:2",
  "n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2",
  "n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "(n==1)?0:(n>=2&&n<=4)?1:2",
  "n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3",
  "n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5",
  (* as other tools write them *)
  "(n!=1)", "(n>1)", "n==1?0:1", "n!=1?1:0", "n>1?1:0", "n==0||n==1?0:1", "n%10!=1||n%100==11", "(n==1||n==11)?0:(n==2||n==12)?1:(n>2&&n<20)?2:3",
  "n==1?0:n==2?1:(n>10&&n%10==0)?2:3", "(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:2)",
  "n%10==0||n%100>=11&&n%100<=19?0:n%10==1&&n%100!=11?1:2", "n==1?0:n==0||(n!=1&&n%100>=1&&n%100<=19)?1:2",
  "n==0?0:n==1?1:n==2?2:n==3?3:n==6?4:5", "n==1?0:n<7?1:n<11?2:3", "n==1?0:n==0||n%100>1&&n%100<11?1:n%100>10&&n%100<20?2:3",
  "n==1?3:n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "n==0?0:n%100==1?1:n%100==2?2:n%100==3||n%100==4?3:4",
  "n!=0&&n!=1", "n", "!n", "n%1000000==0?2:n!=1", "n==1||n==2||n==3||(n%10!=4&&n%10!=6&&n%10!=9)?0:1" >>

Toks == [r \in 1..Len(Rules) |-> TLCEval(Lex(B!Bs(Rules[r])).toks)]
(* one token altered                                                            *)
Inc(ds) == LET d == ds[Len(ds)] IN IF d < 57 THEN [ds EXCEPT ![Len(ds)] = d + 1] ELSE [ds EXCEPT ![Len(ds)] = 56]
OtherOp(k) == CASE k = "==" -> "!=" [] k = "!=" -> "==" [] k = "<" -> "<=" [] k = "<=" -> "<" [] k = ">" -> ">=" [] k = ">=" -> ">"
                [] k = "&&" -> "||" [] k = "||" -> "&&" [] k = "%" -> "-" [] OTHER -> k
Altered(ts, i) == IF i = 0 THEN ts
                  ELSE [ts EXCEPT ![i] = IF ts[i].k = "num" THEN Num(Inc(ts[i].v)) ELSE Op(OtherOp(ts[i].k))]
CanAlter(ts, i) == i = 0 \/ Altered(ts, i) # ts
(* counts of a block                                                            *)
BlockLen == 56
Big(k) == CASE k = 1 -> <<0,0,0,0,1,0,0,0>> [] k = 2 -> <<0,0,0,0,0,0,32,0>> [] k = 3 -> <<156,255,255,127,0,0,0,0>> [] k = 4 -> <<156,255,255,255,0,0,0,0>>
            [] k = 5 -> <<199,255,255,255,255,255,255,127>> [] k = 6 -> <<0,0,0,0,0,0,0,128>> [] k = 7 -> <<0,0,100,167,179,182,224,13>>
NsOf(b) == CASE b >= 0 -> [i \in 1..BlockLen |-> <<b * BlockLen + i - 1>>]
             [] b = -1 -> [i \in 1..BlockLen |-> <<0 - i>>]
             [] b = -2 -> [i \in 1..BlockLen |-> <<0 - 90 - i>>]
             [] b = -3 -> [i \in 1..BlockLen |-> <<999972 + i>>]
             [] b = -4 -> [i \in 1..BlockLen |-> <<1000000 + 90 + i>>]
             [] OTHER -> [i \in 1..8 |-> Add(Norm(Big(-4 - b)), <<(7 * i) + (i % 2)>>)]

Spaced(ts, y) ==
  LET blank(i) == IF y = 0 THEN <<>> ELSE IF y = 1 THEN <<32>> ELSE IF i % 3 = 0 THEN <<9>> ELSE IF i % 3 = 1 THEN <<>> ELSE <<32, 32>>
      F(acc, i) == acc \o (IF i = 1 THEN <<>> ELSE blank(i)) \o TokBytes(ts[i])
  IN FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i])
Show(v) == IF v = Undef THEN <<>> ELSE IF v = Err THEN <<0>> ELSE ToLimbs(v)
Tree(ts, dev) == TLCEval(Finish(ParseToks(ts, dev), dev).out[1])
Values(e, ns, dev) == TLCEval([i \in 1..Len(ns) |-> Show(Eval(e, ns[i], dev))])
EmitSweep ==
  LET ts == TLCEval(Altered(Toks[rule], var'))
      ns == TLCEval(NsOf(blk'))
      ec == Tree(ts, FALSE)
      ed == Tree(ts, TRUE)
      vc == Values(ec, ns, FALSE)
      vd == IF ec = ed THEN vc ELSE Values(ed, ns, TRUE)         \* the two differ in the shape of the tree only: no rule has ^
  IN CSVWrite("%1$s", <<ToJson([k |-> "plural", text |-> Spaced(ts, 0), loose |-> Spaced(ts, 1 + ((rule + blk') % 2)),
                                 ns |-> [i \in 1..Len(ns) |-> ToLimbs(ns[i])],
                                 exp |-> vc, dev |-> vd])>>, IOEnv.CASES)
(* a blank inside a token makes it another text, however well known the rule    *)
TextOf(r) == B!Bs(Rules[r])
Parted(r, i, gap) == SubSeq(TextOf(r), 1, i) \o gap \o B!From(TextOf(r), i + 1)
Breaks(r, i) == LET l == Lex(Parted(r, i, <<32>>)) IN l.bad \/ l.toks # Toks[r]
SplitNs == [i \in 1..14 |-> IF i <= 7 THEN <<i - 1>> ELSE <<(9 * i) - 60>>]
EmitSplit ==
  CSVWrite("%1$s", <<ToJson([k |-> "plural", text |-> Parted(rule, var', <<32>>), loose |-> Parted(rule, var', IF var' % 2 = 0 THEN <<9>> ELSE <<32, 32>>),
                              ns |-> [i \in 1..14 |-> ToLimbs(SplitNs[i])],
                              exp |-> [i \in 1..14 |-> Show(Rule(Parted(rule, var', <<32>>), SplitNs[i]))],
                              dev |-> [i \in 1..14 |-> Show(Built(Parted(rule, var', <<32>>), SplitNs[i]))]])>>, IOEnv.CASES)
Blocks(v) == IF v = 0 THEN (-11)..(UpTo \div BlockLen) ELSE (IF NearUpTo > 200 THEN -4 ELSE 0)..(NearUpTo \div BlockLen)
Init == rule \in 1..Len(Rules) /\ var = -1 /\ blk = 0
NextSplit == /\ var = -1 /\ rule' = rule /\ blk' = 0
             /\ \E i \in 1..(Len(TextOf(rule)) - 1) : var' = i /\ Breaks(rule, i)
Next == IF Split THEN NextSplit ELSE
        /\ var = -1 /\ rule' = rule
        /\ \E v \in {i \in 0..Len(Toks[rule]) : CanAlter(Toks[rule], i)} : var' = v /\ blk' \in Blocks(v)
Emit == IF Split THEN EmitSplit ELSE EmitSweep
(* every rule is complete and reads back from its text; the forms are few        *)
RulesOK == var = -1 => LET ts == Toks[rule]
                       IN /\ Complete(ParseToks(ts, FALSE))
                          /\ \A y \in 0..2 : Lex(Spaced(ts, y)) = [LexInit EXCEPT !.toks = ts]
                          /\ Rules[rule] # "n" => \A i \in 0..300 : RuleToks(ts, <<i>>) \in {<<k>> : k \in 0..5}
=============================================================================
