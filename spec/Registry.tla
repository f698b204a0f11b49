------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry: Translations instances, their text domains, the global    *)
(* instance, and the views derived from them.                              *)
(*                                                                         *)
(* A state is [inst |-> sequence of instances, g |-> index of the global   *)
(* one].  An instance has a language, a current domain, a source language  *)
(* and a partial map from domains to contents.  A content maps languages   *)
(* to catalogs, a catalog maps <<context, message>> to an entry.           *)
(* Do(s, op) is the transition function: [st |-> next state, ret |->       *)
(* answer of the call].  Both the generator and the trace specification    *)
(* use it.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == "-"

(* spellings of languages used by the models, and what they normalise to     *)
(* (Locale.tla is about normalisation itself)                                *)
NormOf(sp) == CASE sp \in {"zh_CN", "zh-Hans", "zh_cn.UTF-8", "ZH", "zh", "zh-cn"} -> "zh_CN"
                [] sp \in {"zh_TW", "zh-Hant", "zh-tw"} -> "zh_TW"
                [] sp \in {"fr_FR", "fr", "FR-fr"} -> "fr_FR"
                [] sp \in {"fr_CA", "fr-ca"} -> "fr_CA"
                [] sp \in {"en_US", "en", "EN"} -> "en_US"
                [] sp \in {"en_GB", "en-gb"} -> "en_GB"
                [] sp \in {"pt_BR", "pt"} -> "pt_BR"
                [] sp \in {"pt_PT", "pt-pt"} -> "pt_PT"
                [] sp \in {"ja", "ja_JP"} -> "ja_JP"
                [] sp \in {"de", "de_DE"} -> "de_DE"
                [] sp \in {"ru", "ru-RU"} -> "ru_RU"
SrcLangOf(sp) == IF sp = "" THEN "en_US" ELSE NormOf(sp)   \* "": undetermined, not the system's
Order == <<"de_DE", "en_GB", "en_US", "fr_CA", "fr_FR", "ja_JP", "pt_BR", "pt_PT", "ru_RU", "zh_CN", "zh_TW">>

(* instances ------------------------------------------------------------- *)
New(sys) == [loc |-> sys, dom |-> "default", src |-> "en_US", doms |-> <<>>]
HasDom(t, d) == d \in DOMAIN t.doms
Content(t, d) == IF HasDom(t, d) THEN t.doms[d] ELSE <<>>
DomNames(t) == DOMAIN t.doms
DropDom(t, d) == [t EXCEPT !.doms = [x \in DOMAIN @ \ {d} |-> @[x]]]
PutDom(t, d, c) == [t EXCEPT !.doms = (d :> c) @@ @]

(* contents: sequence of <<normalised language, catalog>>, distinct languages *)
HasLang(c, l) == \E k \in 1..Len(c) : c[k][1] = l
Cat(c, l) == c[CHOOSE k \in 1..Len(c) : c[k][1] = l][2]

(* What the instance answers from: the catalog of the current domain for the *)
(* current language, or the no-op translator.                                *)
Active(t) == LET c == Content(t, t.dom)
             IN IF HasLang(c, t.loc) THEN <<Cat(c, t.loc)>> ELSE <<>>
Used(t) == IF HasLang(Content(t, t.dom), t.loc) THEN t.loc ELSE t.src
LangSet(t) == {t.src} \cup {Content(t, t.dom)[k][1] : k \in 1..Len(Content(t, t.dom))}

(* operations --------------------------------------------------------------*)
(* op: [op, i, d, l, s] - instance, domain, language (already normalised, or *)
(* None), source.  A source is [ok |-> some file parsed, cont |-> content].   *)
R(st, ret) == [st |-> st, ret |-> ret]
Upd(s, i, t) == [s EXCEPT !.inst[i] = t]
Push(s, t) == [s EXCEPT !.inst = Append(@, t)]
Void == "void"

Bind(t, d, src) == IF src.ok THEN PutDom(t, d, src.cont) ELSE t
Unbind(t, d) == IF d # "" /\ HasDom(t, d)
                THEN [DropDom(t, d) EXCEPT !.dom = IF @ = d THEN "default" ELSE @]
                ELSE t
Clear(t) == [t EXCEPT !.doms = <<>>, !.dom = "default"]
WithLoc(t, l) == [t EXCEPT !.loc = l]
WithDom(t, d) == [t EXCEPT !.dom = d]

Do(s, o, sys) ==
  LET t == IF o.i >= 1 /\ o.i <= Len(s.inst) THEN s.inst[o.i] ELSE New(sys)
      g == s.inst[s.g]
  IN
  CASE o.op = "bind"   -> R(Upd(s, o.i, Bind(t, o.d, o.src)), Void)
    [] o.op = "load"   -> R(Upd(s, s.g, Bind(g, g.dom, o.src)), Void)
    [] o.op = "remove" -> R(Upd(s, o.i, Unbind(t, o.d)), IF o.d # "" /\ HasDom(t, o.d) THEN "true" ELSE "false")
    [] o.op = "clear"  -> R(Upd(s, o.i, Clear(t)), Void)
    [] o.op = "setdom" -> R(Upd(s, o.i, WithDom(t, o.d)), Void)
    [] o.op = "setloc" -> R(Upd(s, o.i, WithLoc(t, o.l)), Void)
    [] o.op = "setsrc" -> R(Upd(s, o.i, [t EXCEPT !.src = o.l]), Void)
    [] o.op = "new"    -> R(Push(s, New(sys)), Void)
    [] o.op = "copy"   -> R(Push(s, g), Void)
    [] o.op = "L"      -> R(Push(s, WithLoc(t, o.l)), Void)
    [] o.op = "D"      -> R(Push(s, WithDom(t, o.d)), Void)
    [] o.op = "ctx"    -> R(Push(s, LET a == IF o.l = None THEN g ELSE WithLoc(g, o.l)
                                    IN IF o.d = None THEN a ELSE WithDom(a, o.d)), Void)
    [] o.op = "setglobal" -> R([s EXCEPT !.g = o.i], Void)

(* lookups ------------------------------------------------------------------*)
(* An entry is [c, id, id2, s, n]: context, message, plural, singular         *)
(* translation, plural translations.  Rules: see PluralIdx.                   *)
Entry(cat, c, id) == IF \E k \in 1..Len(cat.ents) : cat.ents[k].c = c /\ cat.ents[k].id = id
                     THEN <<cat.ents[CHOOSE k \in 1..Len(cat.ents) : cat.ents[k].c = c /\ cat.ents[k].id = id]>>
                     ELSE <<>>
(* counts are <<high, low>>: high * 2^32 + low, both of one sign             *)
One == <<0, 1>>
DefaultPl(id, id2, n) == IF id2 # "" /\ n # One THEN id2 ELSE id
(* rules of the registry model: name -> header text, declared forms, index    *)
RuleText(r) == CASE r = "ne1"  -> "nplurals=2; plural=n != 1;"
                 [] r = "one"  -> "nplurals=1; plural=0;"
                 [] r = "mod3" -> "nplurals=3; plural=n%3;"
                 [] r = "mod4" -> "nplurals=3; plural=n%4;"
                 [] r = "bad"  -> "nplurals=2; plural=n n;#"
                 [] r = "none" -> ""
RuleTotal(r) == CASE r = "ne1" -> 2 [] r = "one" -> 1 [] r \in {"mod3", "mod4"} -> 3 [] OTHER -> 0
CRem(n, k) == IF n >= 0 THEN n % k ELSE -((-n) % k)      \* the sign of the dividend, as in C
RuleIdx(r, n) == CASE r = "ne1" -> IF n # One THEN 1 ELSE 0
                   [] r = "one" -> 0
                   [] r = "mod3" -> CRem(n[1] + n[2], 3)
                   [] r = "mod4" -> CRem(n[2], 4)
                   [] OTHER -> -1
LookX(t, c, id) ==
  LET a == Active(t)
      e == IF a = <<>> THEN <<>> ELSE Entry(a[1], c, id)
  IN IF e = <<>> \/ e[1].s = "" THEN id ELSE e[1].s
LookXN(t, c, id, id2, n) ==
  LET a == Active(t)
      e == IF a = <<>> THEN <<>> ELSE Entry(a[1], c, id)
  IN IF e = <<>> THEN DefaultPl(id, id2, n)
     ELSE IF e[1].id2 = "" /\ e[1].n = <<>> THEN (IF e[1].s = "" THEN id ELSE e[1].s)
     ELSE LET k == RuleIdx(a[1].rule, n)
          IN IF k < 0 \/ k >= RuleTotal(a[1].rule) \/ k >= Len(e[1].n) THEN DefaultPl(id, id2, n)
             ELSE IF e[1].n[k + 1] = "" THEN DefaultPl(id, id2, n) ELSE e[1].n[k + 1]
(* texts end in a verb in the real code: with an argument it is replaced       *)
Raw(x) == x \o " %s"
Fmt(x, arg) == IF arg = "" THEN x \o " %s" ELSE x \o " " \o arg
(* the header is an entry too: the empty message without context answers with it *)
HeaderText(lang, rule) == "Project-Id-Version: x\n" \o (IF lang = "" THEN "" ELSE "Language: " \o lang \o "\n")
                          \o (IF RuleText(rule) = "" THEN "" ELSE "Plural-Forms: " \o RuleText(rule) \o "\n")
MkCat(f) == [rule |-> f.rule, ents |-> f.ents, hdr |-> HeaderText(f.lang, f.rule)]
(* answers: what a lookup returns (the empty message is asked without arguments) *)
AnsX(t, c, id, arg) == IF id # "" THEN Fmt(LookX(t, c, id), arg)
                       ELSE IF c = "" /\ Active(t) # <<>> THEN Active(t)[1].hdr ELSE ""
AnsXN(t, c, id, id2, n, arg) == IF id # "" THEN Fmt(LookXN(t, c, id, id2, n), arg)
                                ELSE IF c = "" /\ Active(t) # <<>> THEN Active(t)[1].hdr
                                ELSE IF id2 # "" /\ n # One THEN Fmt(id2, arg) ELSE ""
=============================================================================
