"""One function per property: which specification runs, with which bounds, against what."""
import json, os
from vlib import Infra, count_lines, one_line

CHECKS = {}
NOT_APPLICABLE = {}
TECHNIQUE = {}      # property -> (technique, level note) for MANIFEST.json


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def cfg(spec=None, init=None, next_=None, consts=None, invs=(), emit="Emit", props=(), view=None,
        constraint=None, deadlock=False, post=None):
    o = []
    if spec:
        o.append("SPECIFICATION " + spec)
    if init:
        o += ["INIT " + init, "NEXT " + next_]
    if consts:
        o.append("CONSTANTS")
        for k, v in consts.items():
            if isinstance(v, str) and v.startswith("<-"):
                o.append("  %s <- %s" % (k, v[2:].strip()))
            else:
                o.append("  %s = %s" % (k, tla(v)))
    if invs:
        o.append("INVARIANTS " + " ".join(invs))
    for p in props:
        o.append("PROPERTY " + p)
    if emit:
        o.append("ACTION_CONSTRAINT " + emit)
    if constraint:
        o.append("CONSTRAINT " + constraint)
    if view:
        o.append("VIEW " + view)
    if post:
        o.append("POSTCONDITION " + post)
    o.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(o) + "\n"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


# ---------------------------------------------------------------- plural expressions

def plural_gen(c, name, want, **k):
    consts = dict(Atoms="<- AtomsFew", Binary="<- AllBinary", Prefix="<- AllPrefix", MaxLen=5, BadLen=0,
                  Parens=True, Emits="valid", Shapes="<- NoShape")
    consts.update(k)
    p = c.generate("PluralGen", name, cfgtext=cfg(spec="Spec", consts=consts,
                   invs=["MachineOK", "LexOK", "LogicOK"]))
    c.replay(p, "want=" + want)


def plural_deep(c, emits, want, depths, huge=()):
    p = c.generate("PluralDeep", "depth", cfgtext=cfg(init="Init", next_="Next", invs=["DeepOK"],
                   consts=dict(Depths=set(depths), Emits=emits, HugeDepths=set(huge))))
    c.replay(p, "want=" + want)


DEEP = set(range(1, 13)) | {15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 99, 100, 101}
DEEPER = DEEP | set(range(1, 70)) | {127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300}


def plural_traces(c, n, want, seed_off=0):
    tr = c.record("plural", n, seed_off=seed_off)
    for m in c.validate("PluralTrace", tr, "plural-traces-%d" % seed_off):
        obs, exp, dev, src = m["line"]["obs"], m["exp"], m["dev"], m["line"]["src"]
        is_err = exp == [0]
        if len(obs) != 2 and (is_err if want == "values" else not is_err and (len(obs) == 8 or len(dev) != 8)):
            continue        # an error where there is a value is judged by both
        note = "recorded Eval(%r, %s) -> %s, specification says %s" % (src, m["line"]["n"], obs, exp)
        if dev == [] and len(obs) != 2 and (is_err or "^" in src or any(x in src for x in "<>")):
            continue        # the recorded deviation leads to an unspecified operation
        if obs == dev:
            fid = "trailing-tokens" if is_err else "xor-is-and" if "^" in src else "relational-precedence"
            if c.finding(fid, note):
                continue
        c.violation(m["line"], note, obs, exp)


TECHNIQUE["C03"] = TECHNIQUE["C04"] = (
    "TLA+ parser/evaluator machine (Plural.tla): TLC-generated expressions replayed, recorded evaluations validated by TLC",
    "Every expression up to 5 tokens over all operators (longer over fewer) is enumerated by TLC and evaluated by the real "
    "code at 8 counts; random deeper texts over all int64 are recorded and validated by TLC against the same specification. "
    "Trusts the specification's transcription of C and that behaviour beyond the bounds is like that within.")


@check("C03")
def c03(c):
    c.assumptions += ["C leaves signed overflow, out-of-range shifts and octal-looking literals open; they are not judged",
                      "++ and -- are outside the property"]
    plural_gen(c, "expressions-5", "values")
    plural_gen(c, "shifts", "values", Atoms="<- AtomsShift", Binary={"<<", ">>", "&"}, Prefix=set(), Parens=False)
    plural_gen(c, "nested", "values", MaxLen=11, Prefix={"-", "!"}, Shapes="<- ShapesNested")
    p = c.generate("PluralRules", "rules", cfgtext=cfg(init="Init", next_="Next", invs=["RulesOK"],
                   consts=dict(UpTo=1120 if c.quick else 12000, NearUpTo=111 if c.quick else 560, Split=False)))
    c.replay(p, "want=values")
    plural_gen(c, "wide", "values", Atoms="<- AtomsWide", Binary={"*", "/", "%", "-", "<", "=="}, Prefix={"-"}, Parens=False)
    plural_deep(c, "valid", "values", DEEP if c.quick else DEEPER)
    if c.quick:
        plural_gen(c, "ternaries-7", "values", MaxLen=7, Binary={"?", "==", "||", "<"}, Prefix=set(), Parens=False)
        plural_traces(c, 3000, "values")
    else:
        plural_gen(c, "ternaries-9", "values", MaxLen=9, Binary={"?", "==", "&&"}, Prefix={"!"}, Parens=False)
        plural_gen(c, "mixed-7", "values", MaxLen=7, Binary={"?", "%", "-", "<=", "!=", "&&", "||", "&", "|"},
                   Prefix=set(), Parens=False)
        plural_gen(c, "parens-7", "values", MaxLen=7, Binary={"+", "*", ">", "&&", "?"}, Prefix={"-", "!"})
        plural_gen(c, "atoms-5", "values", Atoms="<- AtomsMany", MaxLen=5, Prefix={"!"}, Parens=False)
        for i in range(8):
            plural_traces(c, 6000, "values", i)


@check("C04")
def c04(c):
    plural_gen(c, "malformed", "errors", Emits="all", MaxLen=3, BadLen=3, Atoms="<- AtomsAll", Prefix="<- PlusPlus")
    plural_gen(c, "zero-division", "errors", MaxLen=5, Binary={"/", "%", "?", "&&", "||", "-"}, Prefix=set(),
               Atoms="<- AtomsMany", Parens=False)
    p = c.generate("PluralRules", "split-tokens", cfgtext=cfg(init="Init", next_="Next", invs=["RulesOK"],
                   consts=dict(UpTo=0, NearUpTo=0, Split=True)))
    c.replay(p, "want=errors")
    plural_deep(c, "broken", "errors", DEEP if c.quick else DEEPER, huge={20000})
    if c.quick:
        plural_traces(c, 3000, "errors", 100)
    else:
        plural_gen(c, "malformed-4", "errors", Emits="malformed", MaxLen=4, BadLen=4)
        plural_gen(c, "malformed-6", "errors", Emits="malformed", MaxLen=6, BadLen=6,
                   Binary={"?", "+", "=="}, Prefix={"!"})
        for i in range(8):
            plural_traces(c, 6000, "errors", 100 + i)


# ---------------------------------------------------------------- the registry

REG_OPS = {"bind", "load", "remove", "clear", "setdom", "setloc", "setsrc", "new", "copy", "L", "D", "ctx", "setglobal"}
REG_PROPS = dict(invs=["Consistent"], props=["Isolation", "ViewStart", "DomainSet"], view="StateView")
SYS = "de_DE"
REG_ENV = {"LANG": "de_DE.UTF-8", "LC_ALL": "", "LC_MESSAGES": "", "LANGUAGE": ""}


def reg_gen(c, name, focus, steps, inst, ops=REG_OPS, doms=("default", "d"), spells=("zh-Hans", "fr"), srcs=("A", "B", "N"),
            asked="few", **kw):
    defs = os.path.join(c.work, name + ".defs")
    p = c.generate("RegistryGen", name, env={"DEFS": defs}, cfgtext=cfg(spec="Spec", consts=dict(
        MaxSteps=steps, MaxInst=inst, Ops=set(ops), Doms=set(doms), Spells=set(spells), Srcs=set(srcs), Sys=SYS, Asked=asked), **REG_PROPS), **kw)
    c.replay(p, "defs=" + defs, "focus=" + ",".join(focus), env=REG_ENV)


def reg_big(c, focus, scripts, **kw):
    """long scripted histories"""
    defs = os.path.join(c.work, "long.defs")
    n = 48 if c.quick else 200
    marks = {1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 23, 31, 32, 33, 37, 47, 48} | (set() if c.quick else {63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200})
    p = c.generate("RegistryBig", "long", env={"DEFS": defs + "-few", "BIGDEFS": defs}, cfgtext=cfg(spec="Spec", consts=dict(
        MaxSteps=n, Marks=marks, DomCount=n, Scripts=set(scripts), Srcs=set("ABCDN"), Sys=SYS, Asked="few"),
        invs=["Consistent"], props=["Isolation", "DomainSet"]), timeout=3000)
    c.replay(p, "defs=" + defs, "focus=" + ",".join(focus), env=REG_ENV)


def reg_traces(c, n, seed_off, keep, kind="reg", race=False):
    tr = c.record(kind, n, seed_off=seed_off, env=RACE_ENV if race else REG_ENV, race=race)
    if tr is None:
        return
    for m in c.validate("RegistryTrace", tr, "registry-histories-%d" % seed_off, histories=n,
                        cfgtext=cfg(init="Init", next_="Next", consts=dict(Sys=SYS), emit=None)):
        ln = m["line"]
        if keep(ln):
            got = ln.get("res", ln.get("ret"))
            c.violation({"record": kind, "n": n, "seed_off": seed_off, "line": m["i"], "event": ln},
                        "log line %d: %s" % (m["i"], one_line(json.dumps(ln, ensure_ascii=False), 300)), got, m["exp"])


REG_NOTE = ("TLC explores every history of registry operations up to the stated depth with up to 3 instances and checks "
            "isolation and domain-set invariants on the specification; each transition is replayed on the real library and "
            "everything observable compared on all instances. Random 50-step histories with random catalogs are recorded "
            "and validated by TLC. Trusts the text-to-catalog rendering of the driver; longer histories are sampled only.")
REG_TECH = "TLA+ registry state machine (Registry.tla): TLC transitions replayed on the library, recorded histories validated by TLC"
for _p in ("C01", "C05", "C06", "C17", "C23"):
    TECHNIQUE[_p] = (REG_TECH, REG_NOTE)


@check("C01")
def c01(c):
    look = ["lookups"]
    is_look = lambda e: e["e"] in ("x", "xn")
    base = {"bind", "remove", "setdom", "setloc", "clear", "L", "D"}
    reg_gen(c, "lookups", look, 3, 2, ops=base | {"setsrc", "ctx"}, srcs=("A", "B", "C", "D"), spells=("zh", "fr", "pt_BR"))
    reg_gen(c, "lookups-deep", look, 5, 1, ops=base, srcs=("A", "B"), spells=("zh", "fr"))
    lookup_big(c, ["many", "nested", "splits", "unsplit", "replaced", "long", "answers", "odd"])
    for i in range(1 if c.quick else 10):
        reg_traces(c, 300 if c.quick else 1500, 200 + i, is_look)
    if not c.quick:
        reg_gen(c, "lookups-4", look, 4, 2, ops=base | {"load"}, srcs=("A", "D", "N"), spells=("zh", "fr", "ja"), timeout=3000)


@check("C05")
def c05(c):
    everything = ["settings", "domains", "locales", "lookups", "rets"]
    reg_gen(c, "views", everything, 3, 3, srcs=("A", "B"), spells=("zh",), doms=("default", "d"))
    reg_gen(c, "views-lang", everything, 4, 3, ops={"L", "D", "copy", "setloc", "setdom", "setglobal", "ctx"},
            srcs=("A",), spells=("zh", "fr"), doms=("d",))
    reg_big(c, everything, ["chain", "fanout", "contexts", "globals"])
    for i in range(1 if c.quick else 10):
        reg_traces(c, 300 if c.quick else 1500, 300 + i, lambda e: True)
    if not c.quick:
        reg_gen(c, "views-4", everything, 4, 3, srcs=("A",), spells=("zh",), doms=("default", "d"), timeout=3000)


@check("C06")
def c06(c):
    f = ["settings", "domains", "lookups", "rets"]
    ops = {"bind", "load", "remove", "clear", "setdom"}
    reg_gen(c, "domains", f, 4, 1, ops=ops, doms=("", "default", "d"), srcs=("A", "B", "N", "U"), spells=("zh",))
    reg_gen(c, "domains-views", f, 3, 2, ops=ops | {"D", "setglobal", "copy", "setloc"}, doms=("default", "d", "e"),
            srcs=("A", "N"), spells=("zh",))
    reg_gen(c, "domains-many", f, 5, 1, ops={"bind", "setdom", "remove"}, doms=("d", "e", "x"), srcs=("A",), spells=("zh",))
    reg_big(c, f, ["bindall", "domains", "dropcurrent", "removeall", "rebind", "clears", "globals"])
    for i in range(1 if c.quick else 10):
        reg_traces(c, 300 if c.quick else 1500, 400 + i, lambda e: e["e"] in ("op", "domains", "x", "xn") or True)
    if not c.quick:
        reg_gen(c, "domains-5", f, 5, 1, ops=ops | {"setloc"}, doms=("", "default", "d"), srcs=("A", "B", "N"), spells=("zh",),
                timeout=3000)


@check("C17")
def c17(c):
    f = ["settings", "locales", "lookups"]
    ops = {"bind", "remove", "setdom", "setloc", "setsrc"}
    reg_gen(c, "languages", f, 3, 1, ops=ops | {"clear"}, doms=("default", "d"), srcs=("A", "B", "C", "D", "U"),
            spells=("zh-Hans", "fr", "en", "pt_BR", "ja", "", "ZH"))
    reg_gen(c, "languages-deep", f, 4, 1, ops=ops, doms=("default", "d"), srcs=("A", "C"), spells=("zh", "en", ""))
    reg_gen(c, "languages-views", f, 3, 2, ops={"L", "D", "bind", "ctx", "copy", "setsrc"}, srcs=("A", "C"), spells=("zh", "en"))
    reg_big(c, f, ["langs", "rebind", "chain", "clears"])
    for i in range(1 if c.quick else 10):
        reg_traces(c, 300 if c.quick else 1500, 500 + i, lambda e: e["e"] in ("settings", "x", "xn"))
    if not c.quick:
        reg_gen(c, "languages-5", f, 5, 1, ops=ops, doms=("default", "d"), srcs=("C", "D"), spells=("pt", "en_GB", "zh"),
                timeout=3000)


@check("C23")
def c23(c):
    f = ["lookups", "short"]
    reg_gen(c, "short-forms", f, 3, 2, ops={"bind", "setloc", "L", "D", "setglobal", "load", "clear"}, srcs=("A", "B", "D"),
            spells=("zh", "fr", "ja", "ru"))
    reg_gen(c, "short-forms-counts", f, 2 if c.quick else 3, 1, ops={"bind", "setloc", "setdom"}, srcs=("A", "D"), spells=("zh", "fr", "ja"), asked="many")
    for i in range(1 if c.quick else 10):
        reg_traces(c, 400 if c.quick else 1500, 600 + i, lambda e: e["e"] in ("x", "xn"))
    if not c.quick:
        reg_gen(c, "short-forms-4", f, 4, 2, ops={"bind", "setloc", "L", "setglobal", "clear"}, srcs=("A", "B", "D"),
                spells=("zh", "fr"), timeout=3000)


TECHNIQUE["C24"] = ("TLA+ model of a domain's translators (Translators.tla): TLC-explored histories of additions replayed, recorded histories validated",
    "Every history of up to 2 (3 over fewer operations, 4 thorough) additions - own translators, catalogs, PO and MO contents, files and "
    "file systems, good, malformed, unreadable, without a language - from an empty, a constructed and a bound translation is replayed, "
    "and everything registered and every answer compared; random 25-step histories are recorded and validated. How one translation "
    "shared between instances shows in them is not judged.")


@check("C24")
def c24(c):
    def gen(name, steps, spells, what, starts=("empty", "two", "bound", "twice"), **kw):
        p = c.generate("TranslatorsGen", name, cfgtext=cfg(spec="Spec", invs=["Distinct"], props=["OneAtATime"], consts=dict(
            MaxSteps=steps, Spells=set(spells), Starts=set(starts), What=what)), **kw)
        c.replay(p)
    gen("additions", 2, ["zh-Hans", "zh", "fr"], "all")
    gen("additions-deep", 3, ["ZH", "fr_FR"], "few")
    for i in range(1 if c.quick else 8):
        n = 400 if c.quick else 2000
        tr = c.record("tors", n, seed_off=2400 + i)
        for m in c.validate("TranslatorsTrace", tr, "addition-histories-%d" % i, histories=n, cfgtext=cfg(init="Init", next_="Next", emit=None)):
            ln = m["line"]
            c.violation({"record": "tors", "line": ln}, "recorded %s" % one_line(json.dumps(ln), 400), [ln["o"]["ret"], ln["has"], ln["x"], ln["xn"]], m["exp"])
    if not c.quick:
        gen("additions-3", 3, ["zh-Hans", "ja"], "all", starts=("bound",), timeout=3000)
        gen("additions-4", 4, ["ZH", "fr_FR"], "few", starts=("bound", "two"), timeout=3000)


TECHNIQUE["C25"] = ("TLA+ composition of the specifications (Chain.tla: Extract, Catalog, Format): TLC-enumerated templates taken the whole way and executed",
    "Templates of up to 2 (3) constructs that can be executed, over two files, are extracted, the template file is read back, "
    "translated in whole or in part with 1 to 3 plural forms, saved as PO or MO, bound from a directory, and the very templates are "
    "executed with the instance's lookups, in the translation, in the source language and in views; what each execution has to "
    "write is computed by the specification.")


@check("C25")
def c25(c):
    def gen(name, n, pool, **kw):
        p = c.generate("ChainGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(MaxLen=n, Pool=pool), invs=["Whole"]), **kw)
        c.replay(p)
    gen("chains", 2, "few")
    p = c.generate("ChainBig", "sizes", timeout=3000, cfgtext=cfg(init="Init", next_="Next", invs=["Grows"], consts=dict(
        Families={"messages", "plurals", "repeated", "contexts", "splits", "ifs", "withs", "elifs", "parens", "pipes", "definitions", "args", "letters", "words",
                  "quotes", "newlines", "lines above", "text around", "files"}, NestUpTo=17 if c.quick else 33,
        Depths={1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 17, 33} | (set() if c.quick else set(range(6, 34)) | {50, 64, 65, 100}),
        Widths=set(range(68, 82)) | {1, 2, 9, 40, 100, 157, 240} | (set() if c.quick else set(range(1, 160)) | {300, 1000}))))
    c.replay(p)
    if not c.quick:
        gen("chains-deliveries", 2, "all")
        gen("chains-deep", 3, "few", timeout=3000)


# ---------------------------------------------------------------- formatting

def chunked(module, c, trace, name, chunk=250, **kw):
    return c.validate(module, trace, name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Chunk=chunk), emit=None), **kw)


def text(b):
    """Byte arrays as text, whatever they are nested in."""
    if isinstance(b, dict):
        return {k: text(v) for k, v in b.items()}
    if isinstance(b, list):
        if all(isinstance(x, int) and 0 <= x < 256 for x in b):
            return bytes(b).decode("utf-8", "backslashreplace")
        return [text(x) for x in b]
    return b


TECHNIQUE["C13"] = ("TLA+ byte-level scanner of format strings (Format.tla): TLC-enumerated messages replayed, recorded calls validated",
    "Every message of up to 4 pieces over two alphabets with 5 argument lists goes through every path that formats "
    "(f, no-op translator, File, instances, package); random messages are recorded and validated. Too few arguments, "
    "star widths, precisions and verbs outside s d v t x X o b are not judged.")


@check("C13")
def c13(c):
    c.assumptions += ["what happens with too few arguments is left open (the standard formatter's notice is not promised)"]
    def gen(name, pieces, n):
        p = c.generate("FormatGen", name, cfgtext=cfg(init="Init", next_="Next", view="View",
                       consts=dict(Pieces="<- " + pieces, MaxLen=n, ArgLists=0), invs=["SurplusIgnored", "PlainCopied"]))
        c.replay(p)
    gen("messages", "PiecesText", 3 if c.quick else 4)
    gen("flags", "PiecesFlags", 4 if c.quick else 5)
    gen("stars", "PiecesStars", 4 if c.quick else 5)
    fams = ["verbs", "spaced", "surplus", "unused", "percents", "percentsodd", "signs", "bare", "indexes", "again", "jumps", "restart", "plain",
            "before", "after", "wide", "value", "notice", "unicode"]
    p = c.generate("FormatBig", "sizes", timeout=3000, cfgtext=cfg(init="Init", next_="Next", view="View", invs=["Sane"], consts=dict(
        Families=set(fams), UpTo=65 if c.quick else 270,
        Depths=set(range(1, 14)) | {16, 17, 31, 32, 33, 50, 64, 65, 100, 129, 257, 300, 500} | (set() if c.quick else set(range(14, 70)) | {99, 101, 127, 128, 255, 256, 999, 1500}))))
    c.replay(p)
    for i in range(1 if c.quick else 8):
        tr = c.record("fmt", 8000, seed_off=700 + i)
        for m in chunked("FormatTrace", c, tr, "format-calls-%d" % i):
            ln = m["line"]
            c.violation({"record": "fmt", "line": ln}, "%s(%r, %r)%s" % (ln["path"], text(ln["m"]),
                        [text(a["v"]) for a in ln["args"]], "" if ln["kept"] else " changed the caller's slice"),
                        text(ln["obs"]), text(m["exp"]))


# ---------------------------------------------------------------- one catalog

def lookup_gen(c, name, mode, n, **kw):
    p = c.generate("LookupGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxLen=n),
                   invs=["UniqueKeys"], props=["OnlyHeader"] if mode == "history" else [], **kw))
    c.replay(p)


def lookup_big(c, families):
    """families of catalogs that grow"""
    deep = {1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 17, 33, 65, 101, 257, 400} | (set() if c.quick else {6, 7, 16, 32, 64, 99, 100, 127, 128, 129, 255, 256, 513, 1025, 1500})
    wide = {1, 2, 9, 77, 100, 4097, 66000} | (set() if c.quick else {255, 256, 257, 1000, 8193, 32769, 140000})
    p = c.generate("LookupBig", "sizes", cfgtext=cfg(init="Init", next_="Next", invs=["UniqueKeys"],
                   consts=dict(Families=set(families), Depths=deep, Widths=wide, UpTo=101 if c.quick else 260)), timeout=3000)
    c.replay(p)


def lookup_traces(c, n, seed_off, kinds):
    tr = c.record("look", n, seed_off=seed_off)
    for m in chunked("LookupTrace", c, tr, "lookups-%d" % seed_off, chunk=100):
        q = m["line"]["qs"][m["q"] - 1]
        if q["f"] in kinds:
            c.violation({"record": "look", "line": m["line"], "question": q}, "recorded %s on catalog %s" % (
                text(q), text(m["line"]["adds"])), text(q["obs"]), text(m["exp"]))


LOOK_NOTE = ("TLC enumerates catalogs (header texts, rules, entry shapes, histories of AddEntry) and computes every answer from "
             "the same specification of headers, plural rules and formatting; the real catalog, filled by AddEntry and by "
             "reading PO, must agree. Random catalogs are recorded and validated. Values the plural specification leaves open "
             "(overflow) and formats with too few arguments are not judged.")
TECHNIQUE["C02"] = ("TLA+ catalog model (Catalog.tla + Plural.tla): TLC-enumerated rules, entries and counts replayed, recorded lookups validated", LOOK_NOTE)
TECHNIQUE["C14"] = ("TLA+ catalog model (Catalog.tla): TLC-explored AddEntry histories and header texts replayed, recorded questions validated", LOOK_NOTE)


@check("C02")
def c02(c):
    lookup_gen(c, "rules", "rules", 1)
    lookup_big(c, ["counts", "modulo", "plurals", "parens", "rulechain", "answers", "odd"])
    for i in range(1 if c.quick else 8):
        lookup_traces(c, 1500 if c.quick else 4000, 800 + i, ("x", "xn"))


@check("C14")
def c14(c):
    lookup_gen(c, "header-history", "history", 3 if c.quick else 5)
    lookup_gen(c, "header-lines", "lines", 3 if c.quick else 4)
    lookup_big(c, ["hdrlines", "hdrdup", "hdrjunk", "hdrwide", "hdrblank", "hdragain", "parens", "rulechain"])
    for i in range(1 if c.quick else 8):
        lookup_traces(c, 1500 if c.quick else 4000, 900 + i, ("xn", "lang", "hdr"))


# ---------------------------------------------------------------- loading

TECHNIQUE["C07"] = ("TLA+ loader (Loader.tla): TLC-enumerated trees with faults replayed through every way of loading, recorded trees validated",
    "Every tree of up to 3 files over 12 paths and 10 kinds of content (readable, malformed, failing) with unlistable directories "
    "is loaded through LoadFS, BindFS, Bind, Load and single files, and what is registered compared; TLC also checks that the "
    "walk agrees with the declarative precedence. Random deeper trees are recorded and validated. Faults of real disks are "
    "stood in for by failing file systems, dangling links and links to directories.")


@check("C07")
def c07(c):
    def gen(name, kinds, langs, n, deny, names="plain"):
        p = c.generate("LoaderGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Kinds=set(kinds), Langs=set(langs),
                       MaxNodes=n, Denials=deny, Names=names), invs=["WalkAgrees"]))
        c.replay(p)
    every = ["good", "nolang", "bad", "empty", "swapped", "noopen", "readerr", "nostat"]
    gen("faults", every, ["zh-Hans"], 2, {1, 2, 3, 4})
    gen("precedence", ["good"], ["zh", "zh-Hans", "fr"], 3, {1})
    gen("mixed", ["good", "bad"], ["zh"], 4, {1, 2})
    gen("names", ["good", "bad"], ["zh"], 2, {1}, "odd")
    gen("big", ["big", "bad"], ["fr"], 1 if c.quick else 2, {1})
    fams = ["many", "same", "mos", "bad around", "all bad", "bad first", "other around", "all other", "stateless", "no language", "deep", "levels",
            "levels same", "branches", "branches same", "long names", "dots"]
    p = c.generate("LoaderBig", "sizes", timeout=3000, cfgtext=cfg(init="Init", next_="Next", invs=["WalkAgrees"], consts=dict(
        Families=set(fams), UpTo=33 if c.quick else 70, NameUpTo=200,
        Depths=set(range(1, 14)) | {16, 17, 20, 25, 31, 32, 33, 64, 65, 100, 128, 200} | (set() if c.quick else set(range(14, 41)) | {48, 50, 63, 66, 70, 150}))))
    c.replay(p)
    for i in range(1 if c.quick else 6):
        tr = c.record("load", 2500, seed_off=1000 + i)
        for m in chunked("LoaderTrace", c, tr, "loads-%d" % i, chunk=100):
            ln = m["line"]
            c.violation({"record": "load", "line": ln}, "loading %s" % " ".join(
                "/".join(text(x) for x in n["p"]) + "(" + n["kind"] + " " + n["lang"] + ")" for n in ln["nodes"]),
                [ln["ok"], ln["reg"]], [m["exp"]["ok"], m["exp"]["reg"]])
    if not c.quick:
        gen("faults-3", every, ["zh"], 3, {1, 2})
        gen("precedence-4", ["good", "bad", "noopen"], ["zh", "fr"], 4, {1})


# ---------------------------------------------------------------- PO files

TECHNIQUE["C08"] = ("TLA+ byte-level PO reader (Po.tla): TLC-composed texts replayed, recorded readings of random and damaged texts validated",
    "TLC composes texts from lines, whole entries and fragments of quoted strings, parses each with the specified reader and the "
    "real ReadPo/ReadPot must recover the same entries or report an error, also with CRLF, blank lines and without final newline. "
    "Texts that are neither clearly well-formed nor one of the stated kinds of non-PO are only required not to panic.")


@check("C08")
def c08(c):
    def gen(name, mode, n, **kw):
        p = c.generate("PoGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxLen=n),
                       invs=["LineEndsFree", "KeepsTranslated", "UniqueKeys"]), **kw)
        c.replay(p)
    gen("lines", "lines", 4 if c.quick else 6, timeout=3000)
    gen("strings", "strings", 2 if c.quick else 3)
    gen("blocks", "blocks", 3 if c.quick else 4)
    gen("comments", "comments", 3 if c.quick else 4)
    deep = {1, 2, 3, 4, 5, 9, 10, 11, 12, 17, 33, 65, 99, 101} | (set() if c.quick else {6, 7, 8, 16, 32, 64, 98, 100, 127, 128, 129, 255, 256, 257, 1000})
    wide = {1, 2, 9, 77, 100, 4097, 66000} | (set() if c.quick else {255, 256, 1000, 8193, 32769, 140000})
    p = c.generate("PoBig", "sizes", cfgtext=cfg(init="Init", next_="Next", invs=["AsRead"],
                   consts=dict(Depths=deep, Widths=wide, ReadUpTo=40 if c.quick else 130)), timeout=3000)
    c.replay(p)
    for i in range(1 if c.quick else 8):
        tr = c.record("po", 1500, seed_off=1100 + i)
        for m in chunked("PoTrace", c, tr, "po-texts-%d" % i, chunk=50):
            ln = m["line"]
            c.violation({"record": "po", "line": ln}, "reading %r as %s" % (text(ln["text"]), "template" if ln["tmpl"] else "catalog"),
                        [ln["st"], ln["ents"]], m["exp"])


# ---------------------------------------------------------------- MO files

TECHNIQUE["C12"] = ("TLA+ byte-level MO reader and writer (Mo.tla): TLC-generated layouts and damage replayed, recorded readings validated",
    "TLC writes catalogs in both byte orders with every order and padding of tables and strings, cuts files at every byte and "
    "overwrites every header and table word with extreme values; the real ReadMo must return exactly the entries, or an error "
    "where the specified reader finds no reading, and may not allocate more than 4 MiB + 1000 bytes per input byte. Files that "
    "are odd but readable (missing NUL, nested separators) may go either way.")


@check("C12")
def c12(c):
    def gen(name, mode, n):
        p = c.generate("MoGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxDamage=n),
                       invs=["RoundTrip"] if mode == "layouts" else []))
        c.replay(p)
    gen("layouts", "layouts", 1)
    gen("revisions", "revisions", 1)
    gen("cuts", "cut", 1)
    gen("damage", "damage", 1)
    p = c.generate("MoBig", "sizes", timeout=3000, cfgtext=cfg(init="Init", next_="Next", invs=["AsRead"], consts=dict(
        Families={"many", "contexts", "plurals", "mixed", "untranslated", "forms", "empty forms", "prefixes", "wide id", "wide context", "wide translation",
                  "wide header", "header lines"}, ReadUpTo=20 if c.quick else 70,
        Depths={1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 32, 33, 65, 101, 129, 257} | (set() if c.quick else set(range(12, 34)) | {64, 100, 127, 128, 255, 256, 300}),
        Widths={1, 2, 9, 77, 100, 255, 256, 257, 1025, 5000} | (set() if c.quick else {128, 512, 1024, 4095, 4096, 4097, 9000, 33000, 66000}))))
    c.replay(p)
    big = os.path.join(c.work, "big.ndjson")
    with open(big, "w") as f:
        for case in [dict(N=10, Len=3, Step=4, Size=100000, Claim=4294967295), dict(N=10, Len=3, Step=4, Size=100000, Claim=50000000),
                     dict(N=4000, Len=20, Step=21, Size=300000, Claim=4000), dict(N=1, Len=4294967295, Step=1, Size=1000, Claim=1),
                     dict(N=2, Len=400000000, Step=1, Size=100000, Claim=2), dict(N=1, Len=900000, Step=1, Size=1000000, Claim=1),
                     dict(N=4000, Len=100000, Step=1, Size=200000, Claim=4000)]:
            f.write(json.dumps(dict(k="mobig", **case)) + "\n")
        for n, ln in [(1, 70000), (1, 3000000), (20000, 30), (3, 0)]:
            f.write(json.dumps(dict(k="mogood", N=n, Len=ln)) + "\n")
    c.replay(big, shards=1)
    for i in range(1 if c.quick else 8):
        tr = c.record("mo", 3000, seed_off=1200 + i)
        for m in chunked("MoTrace", c, tr, "mo-files-%d" % i, chunk=100):
            ln = m["line"]
            c.violation({"record": "mo", "line": ln}, "reading the MO file %r %s" % (bytes(ln["file"]), ln.get("note", "")),
                        [ln["st"], ln["ents"]], m["exp"])
    if not c.quick:
        gen("damage-2", "damage", 2)


# ---------------------------------------------------------------- saving

SAVE_NOTE = ("TLC enumerates histories of AddEntry and texts made of pieces (escapes, control bytes, invalid UTF-8, words around the "
             "line width); the real code saves each catalog (twice, once built in another order, once to a failing writer) and "
             "reads it back; TLC then parses the saved bytes with the specified reader and compares entries, order, layout and "
             "recorded lookups. Random catalogs are recorded likewise. ")
TECHNIQUE["C09"] = ("TLA+ byte-level PO reader (Po.tla, Save.tla): TLC-generated catalogs saved by the real code, every output validated by TLC",
    SAVE_NOTE + "Catalogs hold entries whose texts are free of EOT; comments are single lines beginning with #.")
TECHNIQUE["C10"] = ("TLA+ PO reader and template order (Po.tla, Save.tla): TLC-generated catalogs saved by the real code, every output validated by TLC",
    SAVE_NOTE + "The order of entries with unlike position comments (one a prefix of the other, a number against a name) is not judged.")
TECHNIQUE["C11"] = ("TLA+ byte-level MO reader (Mo.tla, Save.tla): TLC-generated catalogs saved by the real code, every file validated by TLC", SAVE_NOTE)


def saving(c, what):
    def judge(name, tr):
        for m in c.validate_split("SaveTrace", tr, name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Chunk=20, What=what), emit=None)):
            ln = m["line"]
            note = "saving as %s: %s %s\n%s" % (what, m["exp"], ln.get("note", ""), text(ln["out"]))
            if m["exp"] == "mo-order" and c.finding("mo-order", "order of %s is %s" % ([text(e["c"]) + "|" + text(e["id"]) for e in ln["adds"]], ln["order"])):
                continue
            c.violation({"record": "save", "what": what, "line": ln}, note, text(ln["out"]), m["exp"])
    def gen(name, mode, n):
        p = c.generate("SaveGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxLen=n, NoSep=what == "mo"),
                       invs=["PlainAccepted", "OrderSane"] + (["MoReadsBack"] if what == "mo" else [])))
        judge(name + "-saved", c.record("save", 0, "what=" + what, "cases=" + p, seed_off=hash_of(name)))
    gen("history", "history", 3 if c.quick else 5)
    gen("texts", "texts", 3 if c.quick else 4)
    texts = {"letters", "words", "words long", "runes", "quotes", "slashes", "newlines", "tabs", "blanks", "last newline", "last blank", "last quote", "last slash",
             "control", "newline inside", "first newline", "hex"}
    p = c.generate("SaveBig", "sizes", cfgtext=cfg(init="Init", next_="Next", invs=["PlainAccepted"], consts=dict(
        Families=texts | {"many", "same place", "numbers", "untranslated", "forms", "empty forms", "comments", "places", "wide comment", "one line of places",
                          "again", "heads", "head lines", "contexts"}, What=what,
        Depths={1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 17, 26} | (set() if c.quick else set(range(6, 41)) | {50, 64, 65, 100}),
        Widths=set(range(70, 82)) | {1, 2, 3, 8, 20, 40, 62, 66, 100, 155, 156, 157, 240} | (set() if c.quick else set(range(1, 130)) | {300, 400, 512, 1000}))))
    judge("sizes-saved", c.record("save", 0, "what=" + what, "cases=" + p, seed_off=hash_of("sizes")))
    big = os.path.join(c.work, "bigsave.ndjson")
    with open(big, "w") as f:
        for n, ln in [(1, 100000), (1, 250000), (8000, 40), (300, 3000)]:
            f.write(json.dumps(dict(k="savebig", N=n, Len=ln, What=what)) + "\n")
    c.replay(big, shards=1)
    if what == "pot":
        gen("order", "order", 2 if c.quick else 3)
    for i in range(1 if c.quick else 8):
        judge("random-%d" % i, c.record("save", 1200, "what=" + what, seed_off=1300 + i))


def hash_of(name):
    return 5000 + sum(ord(ch) * (k + 1) for k, ch in enumerate(name))


@check("C09")
def c09(c):
    saving(c, "po")


@check("C10")
def c10(c):
    saving(c, "pot")


@check("C11")
def c11(c):
    saving(c, "mo")


# ---------------------------------------------------------------- language codes and negotiation

TECHNIQUE["C15"] = ("TLA+ model of language codes (Lang.tla): TLC-enumerated spellings replayed, recorded normalisations validated",
    "43 languages with their scripts and likely regions, spelled in every combination of letter case, separators, script, region, "
    "POSIX suffix and extension; TLC checks that spelling does not matter and that normalising is idempotent; the real code must "
    "agree in Normalize, in every way of selecting a language and in registered catalogs. Codes outside the table (unknown "
    "languages, odd subtags) are only required not to panic.")
TECHNIQUE["C16"] = ("TLA+ model of negotiation (Lang.tla): TLC-enumerated requests replayed, recorded requests validated",
    "TLC enumerates supported sets, Accept-Language headers built from elements, weights and malformed pieces, and cookies, and "
    "computes the set of admissible answers; the real GetUserLang, Match, MatchTag and MostMatchLocale must answer from it. "
    "Judged for languages that are not understood for one another; which of several regions or scripts of the wanted language is "
    "nearest is left to the matcher.")


def lang_traces(c, what, n, i):
    tr = c.record("lang", n, "what=" + what, seed_off=1400 + i)
    for m in chunked("LangTrace", c, tr, "%s-%d" % (what, i), chunk=100):
        ln = m["line"]
        c.violation({"record": "lang", "line": ln}, "recorded %s %s" % (ln["k"], json.dumps({k: text(v) for k, v in ln.items() if isinstance(v, list)})), ln["panic"] or text(ln["got"]),
            text(m["exp"]))


@check("C15")
def c15(c):
    def gen(name, regions, suffixes, cases, seps):
        p = c.generate("LangGen", name, cfgtext=cfg(init="Init", next_="Next", invs=["SpellingFree", "Stable", "Form"], consts=dict(
            GenRegions="<- " + regions, Sufs="<- " + suffixes, Cases=cases, Seps=seps)))
        c.replay(p)
    gen("spellings", "SomeRegions", "NoSuffix", {1, 2, 3, 4} if not c.quick else {2, 3}, {45, 95})
    gen("suffixes", "SomeRegions" if c.quick else "Regions", "AllSuffixes", {1}, {45, 95})
    gen("regions", "Regions", "NoSuffix", {1}, {95})
    sysl = os.path.join(c.work, "sys.ndjson")
    with open(sysl, "w") as f:
        for code, want in [("zh_TW.UTF-8", "zh_TW"), ("en_GB.UTF-8", "en_GB"), ("fr_CA", "fr_CA"), ("ru_RU.UTF-8", "ru_RU"),
                           ("pt_PT.ISO8859-1", "pt_PT"), ("ja_JP.UTF-8", "ja_JP"), ("zh_CN.GB18030", "zh_CN"), ("fr", "fr_FR")]:
            f.write(json.dumps(dict(k="sys", code=list(code.encode()), want=list(want.encode()))) + "\n")
    c.replay(sysl, shards=1)
    for i in range(1 if c.quick else 8):
        lang_traces(c, "norm", 12000, i)


@check("C16")
def c16(c):
    def gen(name, mode, cats, n):
        p = c.generate("NegoGen", name, cfgtext=cfg(init="Init", next_="Next", invs=["Supported", "AskedAlone"], consts=dict(
            Mode=mode, MaxCats=cats, MaxLen=n)))
        c.replay(p)
    gen("one-element", "header", 2 if c.quick else 3, 1)
    gen("headers", "header", 1, 2)
    gen("match", "match", 2, 2)
    p = c.generate("NegoBig", "sizes", timeout=3000, cfgtext=cfg(init="Init", next_="Next", invs=["Decided"], consts=dict(
        Families={"foreign first", "foreign only", "foreign after", "rising", "falling", "close weights", "refused", "stars", "empty elements", "blanks",
                  "malformed last", "malformed", "no header", "supported", "supported one", "cookies before", "cookies after", "cookies other",
                  "cookie name", "cookie value"},
        Depths=set(range(1, 14)) | {16, 17, 31, 32, 33, 64, 65, 99, 128} | (set() if c.quick else set(range(14, 70)) | {100, 127, 200, 255, 256, 300}))))
    c.replay(p)
    for i in range(1 if c.quick else 8):
        lang_traces(c, "nego", 6000, i)
    if not c.quick:
        gen("headers-2", "header", 2, 2)
        gen("match-3", "match", 3, 2)
        gen("match-wanted", "match", 2, 3)


# ---------------------------------------------------------------- template extraction

TECHNIQUE["C22"] = ("TLA+ byte-level reader of keyword lists (Keywords.tla): TLC-composed lists replayed, recorded readings validated",
    "Every text of up to 5 tokens (7 thorough) over 8 tokens and every list of up to 2 (3) of 40 declarations is read by the "
    "specification and by ParseKeywords; random and damaged lists are recorded and validated. Signs, zero, numbers of more than "
    "nine digits, '1 c' and names that are no identifiers are only required not to panic.")


@check("C22")
def c22(c):
    def gen(name, mode, n, **kw):
        p = c.generate("KeywordsGen", name, cfgtext=cfg(init="Init", next_="Next", view="View", consts=dict(Mode=mode, MaxLen=n),
                       invs=["WrittenOut", "BlanksFree"]), **kw)
        c.replay(p)
    gen("tokens", "tokens", 5 if c.quick else 7, timeout=3000)
    gen("declarations", "words", 2 if c.quick else 3)
    deep = {1, 2, 3, 4, 5, 9, 10, 11, 17, 33, 65, 101, 257, 1000} | (set() if c.quick else {6, 7, 8, 16, 32, 64, 99, 100, 127, 128, 129, 255, 256, 4097, 20000})
    p = c.generate("KeywordsBig", "sizes", cfgtext=cfg(init="Init", next_="Next", invs=["AsRead"],
                   consts=dict(Depths=deep, ReadUpTo=70 if c.quick else 300)), timeout=3000)
    c.replay(p)
    for i in range(1 if c.quick else 6):
        tr = c.record("kw", 20000, seed_off=1600 + i)
        for m in chunked("KeywordsTrace", c, tr, "keyword-lists-%d" % i):
            ln = m["line"]
            c.violation({"record": "kw", "line": ln}, "ParseKeywords(%r)" % text(ln["src"]), [ln["st"], ln["kws"]], m["exp"])


def extract_gen(c, name, mode, n, pool="", what="calls", **kw):
    p = c.generate("ExtractGen", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxLen=n, Pool=pool),
                   invs=["Sound"]), **kw)
    c.replay(p, *(["what=files", "cli=" + c.build_cli(), "every=%d" % (40 if c.quick else 10)] if what == "files" else ["what=calls"]))


BIG = ["lines", "wide", "comment", "literal", "args", "parens", "calls", "pipes", "fields", "ifs", "elses", "uses", "sameline", "msgs", "defs",
       "files", "kws", "place", "odd", "oddhex"]


def extract_big(c, families, what):
    """families of templates that grow"""
    deep = {1, 2, 3, 4, 5, 9, 10, 11, 12, 17, 33, 65, 101} | (set() if c.quick else {6, 7, 8, 16, 32, 64, 99, 100, 127, 128, 129, 200, 256, 257, 300})
    wide = {1, 9, 77, 100, 4097, 66000} | (set() if c.quick else {255, 256, 1000, 8193, 32769, 140000})
    p = c.generate("ExtractBig", "sizes", cfgtext=cfg(init="Init", next_="Next", invs=["Grows"],
                   consts=dict(Depths=deep, Widths=wide, Families=set(families))), timeout=3000)
    c.replay(p, *(["what=files", "cli=" + c.build_cli(), "every=%d" % (10 if c.quick else 4)] if what == "files" else ["what=calls"]))


def extract_traces(c, n, i):
    tr = c.record("xt", n, seed_off=1700 + i)
    for m in c.validate_split("ExtractTrace", tr, "extractions-%d" % i, cfgtext=cfg(init="Init", next_="Next", consts=dict(Chunk=20), emit=None)):
        ln = m["line"]
        c.violation({"record": "xt", "line": ln}, "%s: %s keywords %s\n%s" % (m["exp"], ln["err"], text(ln["kw"]), "\n".join(
            "--- " + text(f["name"]) + "\n" + text(f["text"]) for f in ln["files"])), text(ln["out"]), m["exp"])


TECHNIQUE["C18"] = ("TLA+ model of interleaved calls (Concurrent.tla): TLC-enumerated programs run on goroutines under the race detector, interleavings replayed, recorded concurrent histories validated",
    "TLC explores the interleavings of 2-3 processes with up to 2 (3) calls each on shared instances and catalogs and checks that no "
    "shared instance changes and that no answer depends on the interleaving; so each set of programs is run on free goroutines of a "
    "race-detecting build, on fresh instances, several times, and everything observable is compared afterwards; the interleavings "
    "themselves are replayed in turns. The race detector only sees the executions it is given, which the specification makes all "
    "combinations of calls; the instructions of one execution are scheduled by the runtime.")
RACE_ENV = dict(REG_ENV, GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=50")


def conc_gen(c, name, mode, procs, ops, pool, scenes=("empty", "plain", "other"), reps=2, cold=False, **kw):
    defs = os.path.join(c.work, name + ".defs")
    p = c.generate("Concurrent", name, env={"DEFS": defs}, cfgtext=cfg(init="Init", next_="Next", view="Programs" if mode == "free" else None,
                   consts=dict(Mode=mode, Procs=procs, MaxOps=ops, Scenes=set(scenes), Pool=pool, Srcs={"A", "B", "C", "D", "N"}, Sys=SYS, Asked="few"),
                   invs=["SharedUnchanged", "Sequential"]), **kw)
    c.replay(p, "defs=" + defs, "reps=%d" % reps, env=RACE_ENV, race=True, shards=count_lines(p) if cold else None)


@check("C18")
def c18(c):
    conc_gen(c, "pairs", "free", 2, 1, "wide")
    conc_gen(c, "first-calls", "free", 2, 1, "cold", scenes=["plain"], reps=1, cold=True)      # each in a process of its own
    conc_gen(c, "files", "free", 2, 1, "files", scenes=["empty"])
    conc_gen(c, "threes", "free", 3, 1, "mixed", scenes=["plain"])
    conc_gen(c, "views", "free", 2, 2, "views", scenes=["plain"])
    conc_gen(c, "turns", "steps", 2, 2, "turns", scenes=["plain"])
    for i in range(1 if c.quick else 8):
        reg_traces(c, 100, 1800 + i, lambda ln: True, kind="conc", race=True)
    if not c.quick:
        conc_gen(c, "pairs-again", "free", 2, 1, "wide", reps=10)
        conc_gen(c, "files-again", "free", 2, 1, "files", scenes=["plain"], reps=10)
        conc_gen(c, "fours", "free", 4, 1, "mixed", scenes=["plain", "other"])
        conc_gen(c, "views-again", "free", 2, 2, "views", reps=4)
        conc_gen(c, "views-3", "free", 2, 3, "turns", scenes=["plain", "other"], timeout=3000)
        conc_gen(c, "turns-3", "steps", 3, 2, "fewturns", scenes=["plain"], timeout=3000)


XT_NOTE = ("Templates are trees of nodes that the specification renders and walks at once, so it knows every call, its literal "
           "arguments and the lines it may be reported at. Not judged: names that are only arguments, messages that are empty but have a "
           "context, empty plurals, which line of a multi-line action is given, and which of two conflicting uses is first when template "
           "order and textual order disagree. ")
TECHNIQUE["C19"] = ("TLA+ model of templates and calls (Extract.tla, Keywords.tla): TLC-enumerated templates replayed, recorded extractions validated",
    XT_NOTE + "TLC enumerates pipelines up to 3 (4-5) operands over 16 (8, 4) operands, keyword declarations of every shape against heads and "
    "arguments up to 3 (4), and 11 constructs nested 2 (3) deep in 3 delimiter pairs and all trim styles; random multi-file templates "
    "are extracted and each result is validated.")
TECHNIQUE["C20"] = ("TLA+ model of merging (Extract.tla): TLC-enumerated uses over files and templates replayed several ways, recorded extractions validated",
    XT_NOTE + "TLC enumerates up to 3 (4) uses over files, templates and keywords; every case is extracted repeatedly, to a file and to standard output, "
    "and from another directory, language and time zone, and the outputs are compared with one another (but for the creation date), "
    "read back by the library and by a strict reader, and judged against the specification.")


@check("C19")
def c19(c):
    for i in range(1 if c.quick else 8):
        extract_traces(c, 800, i)
    extract_gen(c, "pipelines", "pipes", 3, "wide")
    extract_gen(c, "constructs", "constructs", 2, "few")
    extract_gen(c, "positions", "positions", 4, "three")
    extract_big(c, BIG, "calls")
    if not c.quick:
        extract_gen(c, "pipelines-4", "pipes", 4, "few", timeout=3000)
        extract_gen(c, "pipelines-5", "pipes", 5, "fewer", timeout=3000)
        extract_gen(c, "constructs-styles", "constructs", 2, "styles", timeout=3000)
        extract_gen(c, "constructs-3", "constructs", 3, "x", timeout=3000)
        extract_gen(c, "positions-4", "positions", 4, "four", timeout=3000)


@check("C20")
def c20(c):
    extract_gen(c, "files", "files", 3, what="files")
    extract_big(c, ["lines", "literal", "uses", "sameline", "msgs", "defs", "files"], "files")
    for i in range(1 if c.quick else 6):
        extract_traces(c, 400, 40 + i)
    if not c.quick:
        extract_gen(c, "files-deep", "files", 5, "deep", what="files", timeout=3000)


TECHNIQUE["C21"] = ("TLA+ state machine of a run (Run.tla): every combination of faults explored by TLC and replayed in process and with the command",
    "TLC explores every run over keyword lists, patterns, up to 3 (4) files of 8 kinds and 8 kinds of output, and checks that a run "
    "fails exactly when something is wrong; each run is performed with internal.Run and with the built command, and error or "
    "exit status, the reports, and the output file before and after are compared. As root, unreadable files are stood in for by "
    "directories and dangling links; disks that fill up by /dev/full.")


@check("C21")
def c21(c):
    cli = c.build_cli()
    def gen(name, **k):
        consts = dict(Kws={"good"}, Pats={"all"}, Kinds={"good", "unclosed"}, Outs={"exists"}, MaxFiles=2, Debugs={False})
        consts.update(k)
        p = c.generate("Run", name, cfgtext=cfg(init="Init", next_="Next", consts=consts,
                       invs=["FailsIffBad", "OldKept", "AllReported", "OnlyBadReported", "Replaced"]))
        c.replay(p, "cli=" + cli)
    kinds = {"good", "plain", "empty", "unclosed", "syntax", "twice", "dir", "dangling"}
    outs = {"absent", "exists", "longer", "nodir", "isdir", "full", "stdout", "default"}
    gen("faults", Kws={"good", "bad"}, Pats={"all", "bad", "none"}, Kinds={"good", "unclosed", "dangling"}, Outs=outs, Debugs={False, True},
        MaxFiles=1 if c.quick else 2)
    gen("flags", Kws={"good", "bad", "blank"}, Pats={"all", "bad", "blank"}, Outs=outs, MaxFiles=1, Debugs={False, True})
    gen("files", Kinds=kinds, MaxFiles=3 if c.quick else 4, Outs={"exists"} if not c.quick else {"longer"})
    gen("outputs", Kinds={"good", "syntax", "dir"}, Outs=outs, MaxFiles=2 if c.quick else 4)
    symbols = {97, 98, 42, 63, 91, 93, 94, 45, 92, 47, 46}
    for name, mode, n, alphabet in (("pattern-symbols", "symbols", 4 if c.quick else 5, symbols),
                                    ("pattern-classes", "symbols", 6 if c.quick else 7, {97, 91, 93, 45, 94} | (set() if c.quick else {92})),
                                    ("pattern-components", "components", 3, {97})):
        p = c.generate("Glob", name, cfgtext=cfg(init="Init", next_="Next", consts=dict(Mode=mode, MaxLen=n, Alphabet=alphabet),
                       invs=["ScanAgrees", "PlainNamesItself", "StarNamesAll"]), timeout=3000)
        c.replay(p, "cli=" + cli)
