------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Formatting a message with arguments: Go's verbs, with surplus arguments *)
(* silently ignored and a message without arguments left alone.            *)
(* Texts are byte sequences.  An argument is [t, v]: t = "int" or "int64"   *)
(* with v its decimal digits (with sign), t = "float64" with v its shortest *)
(* decimal notation, t = "string" or "error" with v its bytes, t = "bool"   *)
(* with v "true"/"false" as bytes, t = "nil" with v "<nil>", t = "list"      *)
(* with v "[1 2]", a slice of any holding ints.                             *)
(* The scanner is a state machine (FStep) that eats one byte at a time.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets, TLC

FUndef == "unspecified"

Str(s) == CASE s = "true" -> <<116,114,117,101>> [] s = "false" -> <<102,97,108,115,101>>
            [] s = "int" -> <<105,110,116>> [] s = "string" -> <<115,116,114,105,110,103>>
            [] s = "bool" -> <<98,111,111,108>> [] s = "noverb" -> <<37,33,40,78,79,86,69,82,66,41>>
            [] s = "nil" -> <<60,110,105,108,62>> [] s = "int64" -> <<105,110,116,54,52>>
            [] s = "uint" -> <<117,105,110,116>> [] s = "int32" -> <<105,110,116,51,50>>
            [] s = "float64" -> <<102,108,111,97,116,54,52>>

IsDig(c) == c >= 48 /\ c <= 57
(* number of runes: bytes that do not continue a UTF-8 sequence; only used on *)
(* valid UTF-8                                                                *)
Runes(b) == FoldLeft(LAMBDA a, c : IF c >= 128 /\ c < 192 THEN a ELSE a + 1, 0, b)
Rep(c, n) == [k \in 1..(IF n < 0 THEN 0 ELSE n) |-> c]
Pad(b, f) == IF ~f.hasw THEN b
             ELSE IF f.minus THEN b \o Rep(32, f.w - Runes(b)) ELSE Rep(32, f.w - Runes(b)) \o b

(* scanner state: out, mode in {"text","flags","width","afterw","prec","afterp","index","verb"},*)
(* the pending verb's flags, arg: next argument                               *)
NoFlags == [minus |-> FALSE, plus |-> FALSE, sharp |-> FALSE, space |-> FALSE, zero |-> FALSE,
            w |-> 0, hasw |-> FALSE, p |-> 0, hasp |-> FALSE]
FInit == [out |-> <<>>, mode |-> "text", f |-> NoFlags, arg |-> 1, ix |-> <<>>, undef |-> FALSE]

Digits(v) == IF v[1] = 45 THEN SubSeq(v, 2, Len(v)) ELSE v
(* decimal digits to digits of another base: only for small numbers            *)
DecVal(ds) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, ds)
RECURSIVE ToBase(_, _, _)
ToBase(n, base, up) ==
  LET d == n % base
      c == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
  IN IF n < base THEN <<c>> ELSE ToBase(n \div base, base, up) \o <<c>>

FmtInt(ds, neg, f) ==
  LET sign == IF neg THEN <<45>> ELSE IF f.plus THEN <<43>> ELSE IF f.space THEN <<32>> ELSE <<>>
  IN IF f.hasw /\ f.zero /\ ~f.minus
     THEN sign \o Rep(48, f.w - Len(sign) - Len(ds)) \o ds
     ELSE Pad(sign \o ds, f)

(* the first n runes                                                           *)
FirstRunes(b, n) == LET starts == {k \in 1..Len(b) : b[k] < 128 \/ b[k] >= 192}
                 over == {k \in starts : Cardinality({j \in starts : j < k}) >= n}
             IN IF over = {} THEN b ELSE SubSeq(b, 1, Min(over) - 1)

FmtFloat(v, verb, f) ==
  LET neg == v[1] = 45 ds == Digits(v)
      dots == {k \in 1..Len(ds) : ds[k] = 46}
      frac == IF dots = {} THEN 0 ELSE Len(ds) - Min(dots)
      p == IF f.hasp THEN f.p ELSE 6
  IN IF verb \in {118, 103} /\ ~f.hasp THEN <<FmtInt(ds, neg, f)>>
     ELSE IF verb # 102 \/ frac > p THEN <<>>
     ELSE <<FmtInt(ds \o (IF dots = {} /\ p > 0 THEN <<46>> ELSE <<>>) \o Rep(48, p - frac), neg, f)>>

(* <<bytes>> or <<>> when unspecified here                                     *)
RECURSIVE Show(_, _, _)
Show(a, verb, f) ==
  LET bad == LET v == Show(a, 118, f)      \* %!verb(type=value)
             IN IF v = <<>> THEN <<>> ELSE <<<<37, 33, verb, 40>> \o Str(a.t) \o <<61>> \o v[1] \o <<41>>>>
  IN
  IF a.t = "nil" THEN
    IF f.zero THEN <<>> ELSE IF verb = 118 THEN <<Pad(a.v, f)>> ELSE <<<<37, 33, verb, 40>> \o a.v \o <<41>>>>
  ELSE IF a.t = "float64" THEN
    IF f.sharp THEN <<>>
    ELSE IF verb \in {118, 103, 102} THEN FmtFloat(a.v, verb, f)
    ELSE IF verb \in {98, 101, 69, 70, 71, 120, 88} THEN <<>> ELSE IF f.hasp THEN <<>> ELSE bad
  ELSE IF a.t = "list" THEN IF f # NoFlags \/ verb \notin {118, 100} THEN <<>> ELSE <<a.v>>
  ELSE IF a.t \in {"error", "stringer"} THEN
    IF f.zero \/ f.hasp \/ f.sharp \/ f.plus \/ verb \notin {115, 118} THEN <<>> ELSE <<Pad(a.v, f)>>
  ELSE IF a.t \in {"int", "int64", "int32", "uint"} THEN
    LET neg == a.v[1] = 45 ds == Digits(a.v)
        base == CASE verb \in {100, 118} -> 10 [] verb \in {120, 88} -> 16 [] verb = 111 -> 8 [] verb = 98 -> 2 [] OTHER -> 0
    IN IF f.hasp \/ (f.sharp /\ base # 10) THEN <<>>
       ELSE IF base = 10 THEN <<FmtInt(ds, neg, f)>>
       ELSE IF base = 0 THEN IF verb \in {99, 113, 85, 79} THEN <<>> ELSE bad
       ELSE IF Len(ds) > 8 THEN <<>> ELSE <<FmtInt(ToBase(DecVal(ds), base, verb = 88), neg, f)>>
  ELSE IF a.t = "bool" THEN
    IF f.zero THEN <<>> ELSE IF verb \in {116, 118} THEN <<Pad(a.v, f)>> ELSE bad
  ELSE
    IF f.zero \/ f.sharp \/ f.plus THEN <<>>
    ELSE IF verb \in {115, 118} THEN <<Pad(IF f.hasp THEN FirstRunes(a.v, f.p) ELSE a.v, f)>>
    ELSE IF f.hasp \/ verb \in {113, 120, 88} THEN <<>> ELSE bad

FVerb(s, c, args) ==
  LET done == [s EXCEPT !.mode = "text", !.f = NoFlags, !.ix = <<>>]
  IN IF c = 37 THEN [done EXCEPT !.out = Append(@, 37)]
     ELSE IF c >= 128 \/ c = 33 \/ c = 84 \/ c = 112 \/ s.arg > Len(args) THEN [s EXCEPT !.undef = TRUE]
     ELSE LET b == TLCEval(Show(args[s.arg], c, s.f))
          IN IF b = <<>> THEN [s EXCEPT !.undef = TRUE]
             ELSE [done EXCEPT !.out = @ \o b[1], !.arg = @ + 1]

(* a width or precision taken from the arguments: <<number>> or <<>>            *)
StarArg(s, args) ==
  IF s.arg > Len(args) THEN <<>>
  ELSE LET a == args[s.arg]
       IN IF a.t # "int" \/ Len(a.v) > 3 THEN <<>>
          ELSE <<DecVal(Digits(a.v)) * (IF a.v[1] = 45 THEN -1 ELSE 1)>>
Star(s, args) ==
  LET n == StarArg(s, args)
  IN IF n = <<>> THEN [s EXCEPT !.undef = TRUE]
     ELSE IF s.mode = "prec"
          THEN IF n[1] < 0 THEN [s EXCEPT !.undef = TRUE]
               ELSE [s EXCEPT !.mode = "afterp", !.f.p = n[1], !.arg = @ + 1]
     ELSE IF n[1] < 0 THEN [s EXCEPT !.mode = "afterw", !.f.minus = TRUE, !.f.zero = FALSE, !.f.w = -n[1], !.f.hasw = TRUE, !.arg = @ + 1]
     ELSE [s EXCEPT !.mode = "afterw", !.f.w = n[1], !.f.hasw = TRUE, !.arg = @ + 1]

FStep(s, c, args) ==
  IF s.undef THEN s
  ELSE CASE s.mode = "text" -> IF c = 37 THEN [s EXCEPT !.mode = "flags"] ELSE [s EXCEPT !.out = Append(@, c)]
    [] s.mode = "flags" /\ c = 45 -> [s EXCEPT !.f.minus = TRUE, !.f.zero = FALSE]
    [] s.mode = "flags" /\ c = 43 -> [s EXCEPT !.f.plus = TRUE]
    [] s.mode = "flags" /\ c = 35 -> [s EXCEPT !.f.sharp = TRUE]
    [] s.mode = "flags" /\ c = 32 -> [s EXCEPT !.f.space = TRUE]
    [] s.mode = "flags" /\ c = 48 -> [s EXCEPT !.f.zero = TRUE]
    [] s.mode \in {"flags", "width"} /\ IsDig(c) ->
         IF s.f.w > 50 THEN [s EXCEPT !.undef = TRUE]
         ELSE [s EXCEPT !.mode = "width", !.f.w = @ * 10 + (c - 48), !.f.hasw = TRUE]
    [] s.mode \in {"flags", "width", "afterw", "prec", "afterp"} /\ c = 91 -> [s EXCEPT !.mode = "index", !.ix = <<>>]
    [] s.mode \in {"flags", "width", "afterw"} /\ c = 46 -> [s EXCEPT !.mode = "prec", !.f.hasp = TRUE]
    [] s.mode = "prec" /\ IsDig(c) -> IF s.f.p > 50 THEN [s EXCEPT !.undef = TRUE] ELSE [s EXCEPT !.f.p = @ * 10 + (c - 48)]
    [] s.mode = "prec" /\ s.f.p > 0 /\ c = 42 -> [s EXCEPT !.undef = TRUE]
    [] s.mode \in {"flags", "prec"} /\ c = 42 -> Star(s, args)
    [] s.mode \in {"width", "afterw", "afterp"} /\ (c = 42 \/ IsDig(c)) -> [s EXCEPT !.undef = TRUE]
    [] s.mode = "index" ->
         IF IsDig(c) /\ Len(s.ix) < 3 THEN [s EXCEPT !.ix = Append(@, c)]
         ELSE IF c = 93 /\ s.ix # <<>> /\ DecVal(s.ix) \in 1..Len(args)
              THEN [s EXCEPT !.mode = "verb", !.arg = DecVal(s.ix)]
              ELSE [s EXCEPT !.undef = TRUE]
    [] s.mode = "verb" /\ c = 42 /\ ~s.f.hasw /\ ~s.f.hasp -> Star(s, args)
    [] s.mode = "verb" /\ (IsDig(c) \/ c \in {91, 42, 46}) -> [s EXCEPT !.undef = TRUE]
    [] OTHER -> FVerb(s, c, args)

(* The formatted text, or FUndef wrapped as <<>>; results are <<bytes>>.       *)
Formatted(m, args) ==
  IF args = <<>> THEN <<m>>
  ELSE LET S(s, c) == FStep(s, c, args)
           e == FoldLeft(S, FInit, m)
       IN IF e.undef THEN <<>>
          ELSE IF e.mode = "text" THEN <<e.out>>
          ELSE IF e.mode \in {"index", "prec"} THEN <<>>
          ELSE <<e.out \o Str("noverb")>>
=============================================================================
