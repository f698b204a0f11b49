-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Language codes and negotiation.                                           *)
(*   Ident(b)   reads a code (bytes): <<>> when this specification does not  *)
(*              know it, else <<[lang, script, region, given]>> with script  *)
(*              and region filled in with the likely ones                     *)
(*   Norm5(b)   the canonical ll_CC form                                      *)
(*   Best(s, w) the places in the supported list s that may be answered for   *)
(*              the wanted list w                                              *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

(* language, then script and likely region of each of its scripts, the usual one first *)
Row(l, sr) == [l |-> Bs(l), sr |-> sr]
S1(s, r) == << <<Bs(s), Bs(r)>> >>
S2(s, r, s2, r2) == << <<Bs(s), Bs(r)>>, <<Bs(s2), Bs(r2)>> >>
S3(s, r, s2, r2, s3, r3) == << <<Bs(s), Bs(r)>>, <<Bs(s2), Bs(r2)>>, <<Bs(s3), Bs(r3)>> >>
Rows == << Row("en", S1("Latn", "US")), Row("fr", S1("Latn", "FR")), Row("de", S1("Latn", "DE")), Row("es", S1("Latn", "ES")),
           Row("pt", S1("Latn", "BR")), Row("it", S1("Latn", "IT")), Row("nl", S1("Latn", "NL")), Row("pl", S1("Latn", "PL")),
           Row("cs", S1("Latn", "CZ")), Row("sv", S1("Latn", "SE")), Row("da", S1("Latn", "DK")), Row("fi", S1("Latn", "FI")),
           Row("nb", S1("Latn", "NO")), Row("tr", S1("Latn", "TR")), Row("vi", S1("Latn", "VN")), Row("id", S1("Latn", "ID")),
           Row("ca", S1("Latn", "ES")), Row("cy", S1("Latn", "GB")), Row("sw", S1("Latn", "TZ")), Row("fil", S1("Latn", "PH")),
           Row("ru", S1("Cyrl", "RU")), Row("uk", S1("Cyrl", "UA")), Row("bg", S1("Cyrl", "BG")), Row("el", S1("Grek", "GR")),
           Row("he", S1("Hebr", "IL")), Row("ar", S1("Arab", "EG")), Row("fa", S1("Arab", "IR")), Row("hi", S1("Deva", "IN")),
           Row("bn", S1("Beng", "BD")), Row("ta", S1("Taml", "IN")), Row("th", S1("Thai", "TH")), Row("ka", S1("Geor", "GE")),
           Row("ja", S1("Jpan", "JP")), Row("ko", S1("Kore", "KR")), Row("haw", S1("Latn", "US")), Row("gsw", S1("Latn", "CH")),
           Row("zh", S2("Hans", "CN", "Hant", "TW")), Row("yue", S2("Hant", "HK", "Hans", "CN")), Row("sr", S2("Cyrl", "RS", "Latn", "RS")),
           Row("az", S3("Latn", "AZ", "Arab", "IR", "Cyrl", "AZ")), Row("uz", S3("Latn", "UZ", "Cyrl", "UZ", "Arab", "AF")),
           Row("pa", S2("Guru", "IN", "Arab", "PK")), Row("mn", S2("Cyrl", "MN", "Mong", "CN")) >>
Alias == << <<Bs("iw"), Bs("he")>>, <<Bs("in"), Bs("id")>>, <<Bs("tl"), Bs("fil")>> >>     \* withdrawn codes
(* regions that imply another script than the usual one *)
ScriptOfRegion == << <<Bs("zh"), Bs("TW"), Bs("Hant")>>, <<Bs("zh"), Bs("HK"), Bs("Hant")>>, <<Bs("zh"), Bs("MO"), Bs("Hant")>>,
                     <<Bs("yue"), Bs("CN"), Bs("Hans")>>, <<Bs("az"), Bs("IR"), Bs("Arab")>>, <<Bs("uz"), Bs("AF"), Bs("Arab")>>,
                     <<Bs("pa"), Bs("PK"), Bs("Arab")>>, <<Bs("mn"), Bs("CN"), Bs("Mong")>> >>
Regions == {Bs("US"), Bs("GB"), Bs("AU"), Bs("IE"), Bs("FR"), Bs("CA"), Bs("CH"), Bs("DE"), Bs("AT"), Bs("ES"), Bs("MX"), Bs("PT"), Bs("BR"),
            Bs("CN"), Bs("TW"), Bs("HK"), Bs("MO"), Bs("SG"), Bs("RU"), Bs("RS"), Bs("IN"), Bs("IT"), Bs("JP"), Bs("KR"), Bs("EG"), Bs("IL"),
            Bs("419"), Bs("001"), Bs("AR"), Bs("BE"), Bs("NO"), Bs("UA"), Bs("PK")}
Scripts == {Bs("Latn"), Bs("Cyrl"), Bs("Hans"), Bs("Hant"), Bs("Arab"), Bs("Guru"), Bs("Mong"), Bs("Jpan"), Bs("Grek"), Bs("Deva")}

IsUp(c) == c >= 65 /\ c <= 90
IsLow(c) == c >= 97 /\ c <= 122
Low(b) == [k \in 1..Len(b) |-> IF IsUp(b[k]) THEN b[k] + 32 ELSE b[k]]
Up(b) == [k \in 1..Len(b) |-> IF IsLow(b[k]) THEN b[k] - 32 ELSE b[k]]
Title(b) == [k \in 1..Len(b) |-> IF k = 1 THEN Up(b)[k] ELSE Low(b)[k]]
Alpha(b) == \A k \in 1..Len(b) : IsUp(b[k]) \/ IsLow(b[k])
Digits(b) == \A k \in 1..Len(b) : b[k] >= 48 /\ b[k] <= 57
Alnum(b) == \A k \in 1..Len(b) : IsUp(b[k]) \/ IsLow(b[k]) \/ (b[k] >= 48 /\ b[k] <= 57)

Bare(b) == LET ps == {k \in 1..Len(b) : b[k] \in {46, 64}}     \* without .encoding and @modifier
           IN IF ps = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in ps : \A j \in ps : k <= j) - 1)
Parts(b) == Split([k \in 1..Len(b) |-> IF b[k] = 95 THEN 45 ELSE b[k]], 45)
RowOf(l) == LET a == SelectSeq(Alias, LAMBDA x : x[1] = l)
                ll == IF a = <<>> THEN l ELSE a[1][2]
            IN SelectSeq(Rows, LAMBDA r : r.l = ll)
LikelyScript(row, region) ==
  LET x == SelectSeq(ScriptOfRegion, LAMBDA t : t[1] = row.l /\ t[2] = region)
  IN IF x # <<>> THEN x[1][3]
     ELSE IF Len(row.sr) = 1 \/ region = <<>> \/ (\E k \in 1..Len(row.sr) : row.sr[k][2] = region) \/ region = Bs("SG") THEN row.sr[1][1]
     ELSE <<>>       \* not told here
LikelyRegion(row, script) ==
  LET x == SelectSeq(row.sr, LAMBDA t : t[1] = script) IN IF x = <<>> THEN row.sr[1][2] ELSE x[1][2]
(* what may follow region: variants and extensions, which change nothing; only those known here *)
Tails == { <<>>, <<Bs("1996")>>, <<Bs("u"), Bs("hc"), Bs("h12")>>, <<Bs("x"), Bs("priv")>> }
Ident(code) ==
  LET ps == TLCEval(Parts(Bare(code)))
      row == IF ps[1] = <<>> \/ ~Alpha(ps[1]) THEN <<>> ELSE RowOf(Low(ps[1]))
      i == IF Len(ps) >= 2 /\ Len(ps[2]) = 4 /\ Alpha(ps[2]) THEN 2 ELSE 1
      j == IF Len(ps) >= i + 1 /\ ((Len(ps[i + 1]) = 2 /\ Alpha(ps[i + 1])) \/ (Len(ps[i + 1]) = 3 /\ Digits(ps[i + 1]))) THEN i + 1 ELSE i
      script == IF i = 2 THEN Title(ps[2]) ELSE <<>>
      region == IF j > i THEN Up(ps[j]) ELSE <<>>
      tail == [k \in 1..(Len(ps) - j) |-> Low(ps[j + k])]
  IN IF row = <<>> \/ ~(tail \in Tails) THEN <<>>
     ELSE IF script # <<>> /\ (\A k \in 1..Len(row[1].sr) : row[1].sr[k][1] # script) THEN <<>>
     ELSE IF region # <<>> /\ ~(region \in Regions) /\ (\A k \in 1..Len(row[1].sr) : row[1].sr[k][2] # region) THEN <<>>
     ELSE << [lang |-> row[1].l,
              script |-> IF script # <<>> THEN script ELSE LikelyScript(row[1], region),
              region |-> IF region # <<>> THEN region ELSE LikelyRegion(row[1], IF script = <<>> THEN row[1].sr[1][1] ELSE script),
              given |-> region # <<>>] >>
Canon(x) == x.lang \o <<95>> \o x.region
Norm5(code) == Canon(Ident(code)[1])

(* negotiation -----------------------------------------------------------------*)
(* languages no two of which are understood for one another                   *)
Strangers == {Bs("en"), Bs("fr"), Bs("de"), Bs("es"), Bs("pt"), Bs("it"), Bs("ru"), Bs("ja"), Bs("ko"), Bs("zh"), Bs("ar"), Bs("he"), Bs("el"),
              Bs("hi"), Bs("fi"), Bs("tr"), Bs("pl"), Bs("cs")}
Rel(w, s) == CASE w.lang # s.lang -> "none" [] w.script # s.script -> "other script" [] w.region = s.region -> "exact" [] OTHER -> "close"
ElemsOf(s) == {s[k] : k \in 1..Len(s)}
Best(sup, want) ==
  LET N == 1..Len(sup)
      R(i, x) == {k \in N : Rel(want[i], sup[k]) = x}
      Same(i) == {k \in N : sup[k].lang = want[i].lang}
      good(i) == R(i, "exact") # {} \/ (R(i, "close") # {} /\ R(i, "other script") = {})
      hit == {i \in 1..Len(want) : good(i)}
      first == CHOOSE i \in hit : \A j \in hit : i <= j
      (* where another script of the language is supported too, it is a match one may settle for or pass over *)
      poor(n) == UNION {Same(i) : i \in 1..n}
      sameScript == {k \in N : \E i \in 1..Len(want) : want[i].script = sup[k].script}
  IN IF hit = {} THEN (IF poor(Len(want)) # {} THEN poor(Len(want)) ELSE {1} \cup sameScript)
     ELSE IF \E i \in 1..first : \E j \in (i + 1)..Len(want) : want[j].lang = want[i].lang THEN poor(Len(want))
     ELSE poor(first - 1) \cup
          (IF R(first, "exact") # {} THEN R(first, "exact") \cup (IF want[first].given THEN {} ELSE {k \in R(first, "close") : Digits(sup[k].region)})
           ELSE R(first, "close"))

(* Accept-Language: st "ok" with the wanted languages by falling weight, "bad" for malformed, "open" *)
Pieces44(b) == Split(b, 44)
ThreeDigits(b) == LET v == FoldLeft(LAMBDA a, d : 10 * a + d - 48, 0, b) IN IF Len(b) = 0 THEN 0 ELSE IF Len(b) = 1 THEN 100 * v ELSE IF Len(b) = 2 THEN 10 * v ELSE v
Weight(b) ==       \* b without blanks around; thousandths, -1 malformed, -2 left open
  LET rest == IF Len(b) >= 2 /\ b[1] = 113 /\ b[2] = 61 THEN From(b, 3) ELSE <<>>
  IN IF Len(b) < 2 \/ b[1] # 113 \/ b[2] # 61 THEN -2
     ELSE IF \E k \in 1..Len(rest) : ~(rest[k] \in 48..57) /\ rest[k] # 46
     THEN (IF rest # <<>> /\ rest[1] \in {97, 98, 99, 120, 122} THEN -1 ELSE -2)
     ELSE IF Len(rest) = 1 /\ rest[1] \in {48, 49} THEN 1000 * (rest[1] - 48)
     ELSE IF Len(rest) \in 3..5 /\ rest[1] = 48 /\ rest[2] = 46 /\ Digits(From(rest, 3)) THEN ThreeDigits(From(rest, 3))
     ELSE IF Len(rest) \in 3..5 /\ rest[1] = 49 /\ rest[2] = 46 /\ \A k \in 3..Len(rest) : rest[k] = 48 THEN 1000 ELSE -2
BadTag(b) == \/ \E k \in 1..Len(b) : b[k] \in {33, 34, 35, 36, 37, 38, 47, 58, 60, 61, 62, 63}     \* never part of a tag
             \/ (\E k \in 1..Len(b) : b[k] = 32) /\ Alnum(SelectSeq(b, LAMBDA c : c # 32))
AElem(b) ==        \* one element: [st, id, q, star]
  LET t == Trim(b)
      i == IndexOf(t, <<59>>)
      tag == Trim(IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1))
      q == IF i = 0 THEN 1000 ELSE Weight(Trim(From(t, i + 1)))
      x == Ident(tag)
      El(st, id, w, star) == [st |-> st, id |-> id, q |-> w, star |-> star]
  IN CASE t = <<>> -> El("none", <<>>, 0, FALSE)
       [] BadTag(tag) -> El("bad", <<>>, 0, FALSE)
       [] tag = <<42>> -> El(IF q = -1 THEN "bad" ELSE IF q = -2 THEN "open" ELSE "ok", <<>>, q, TRUE)
       [] x = <<>> \/ (\E k \in 1..Len(tag) : tag[k] \in {46, 64}) -> El("open", <<>>, 0, FALSE)
       [] ~(x[1].lang \in Strangers) \/ x[1].script = <<>> -> El("open", <<>>, 0, FALSE)
       [] OTHER -> El(IF q = -1 THEN "bad" ELSE IF q = -2 THEN "open" ELSE "ok", x, q, FALSE)
Accept(b) ==
  LET es == TLCEval([k \in 1..Len(Pieces44(b)) |-> AElem(Pieces44(b)[k])])
      stat(x) == \E k \in 1..Len(es) : es[k].st = x
      ok == SelectSeq(es, LAMBDA e : e.st = "ok" /\ ~e.star /\ e.q > 0)
      Before(e, f) == e.q > f.q
      Ins(s, e) == LET n == Cardinality({k \in 1..Len(s) : s[k].q >= e.q}) IN SubSeq(s, 1, n) \o <<e>> \o From(s, n + 1)
      sorted == FoldLeft(Ins, <<>>, ok)
  IN IF stat("bad") THEN [st |-> "bad", want |-> <<>>]
     ELSE IF stat("open") THEN [st |-> "open", want |-> <<>>]
     ELSE [st |-> "ok", want |-> [k \in 1..Len(sorted) |-> sorted[k].id[1]]]

(* the language answered for a request: the set of possible answers, {} when left open *)
(* cookies: sequence of <<name, value>>, cookie: the configured name                    *)
Answers(sup, header, cookies, cookie) ==
  LET cs == SelectSeq(cookies, LAMBDA x : x[1] = cookie)
      a == TLCEval(Accept(header))
      ids == TLCEval([k \in 1..Len(sup) |-> Ident(sup[k])[1]])
  IN IF cs # <<>> THEN {cs[1][2]}
     ELSE IF a.st = "open" \/ (a.st = "ok" /\ \E k \in 1..Len(ids) : ids[k].script = <<>>) THEN {sup[k] : k \in 1..Len(sup)}
     ELSE IF a.st = "bad" THEN {sup[1]}
     ELSE {sup[k] : k \in Best(ids, a.want)}
=============================================================================
