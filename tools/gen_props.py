#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A lookup returns the stored translation or else the source text",
  "After any sequence of loading, binding, replacing and removing catalogs and of switching the text domain, language and source language, looking up a message with a context returns exactly the translation that the active domain's catalog for the active language stores for that context and message, formatted with the arguments. When that domain, language, context/message pair or a non-empty translation is missing, it returns the formatted source text, never a translation from another domain, language or context. Lookups never change what later lookups return.",
  ["histories", "inputs"], "every finite sequence of configuration operations over domains, languages, contexts and messages, and every lookup after each prefix of it",
  "tests look messages up after one or two fixed set-up sequences; the guarantee is about every history of binds, removals and switches",
  ["translations.go", "translaton.go", "init.go", "gettext.go", "translator/file.go", "translator.go"],
  [("Translations.X resolves domain then locale then entry", "translations.go:X"), ("File.X falls back on missing or empty msgstr", "translator/file.go:X"), ("noop translator", "translator.go")],
  [("domains", "catalogs by domain", "translations.go:Translations.domains"), ("locale/domain", "current selection", "translations.go"), ("entries", "messages by context+id", "translator/file.go:File.entries")],
  ["Translations.T/X/N/XN results", "package-level T/X/N/XN"])

p("C02", "Plural lookups pick the form the catalog's rule selects and never panic",
  "For every catalog, context, message and 64-bit count, a plural lookup returns the stored form at the index computed by the catalog's plural rule. If the entry or the rule is missing or invalid, or the index is negative, not below the declared number of forms, not below the number of stored forms, or selects an empty form, it returns the source singular for a count of 1 and the source plural otherwise (the singular when no plural text was given); an entry without plural forms answers with its singular translation. No catalog content and no count makes the lookup panic.",
  ["inputs"], "every entry shape (forms stored, forms declared, empty forms, singular-only), every plural rule including failing and out-of-range ones, every count",
  "tests use well-formed catalogs whose rules only produce indexes that exist",
  ["translator/file.go", "translator/plural.go", "f/format.go"],
  [("File.XN64 index range checks and fallbacks", "translator/file.go:XN64"), ("parsePlural", "translator/plural.go"), ("f.DefaultPlural", "f/format.go")],
  [("MsgStrN", "stored plural forms", "translator/entry.go"), ("plural", "declared number of forms and rule", "translator/plural.go")],
  ["File.XN64", "Translations.XN64"])

p("C03", "Plural rules are evaluated with C semantics",
  "For every syntactically valid plural expression over the variable n, integer literals, parentheses and the C arithmetic, shift, comparison, equality, bitwise, logical and conditional operators, and every 64-bit n, evaluation yields the value C gives with 64-bit signed integers: C precedence and associativity, truncating division, any non-zero value counts as true, logical results are 0 or 1, and only the branch C evaluates is evaluated. Blanks between tokens do not change the result.",
  ["inputs", "programs"], "every expression of the plural grammar and every int64 value of n",
  "tests evaluate about ten published formulas for n below 215 plus one case per operator; combinations of operators are not covered",
  ["plurals/exp.go", "plurals/common.go", "plurals/plural.g4", "plurals/parser/plural_parser.go"],
  [("grammar precedence", "plurals/plural.g4"), ("tree walk with operand stack", "plurals/exp.go"), ("fast path for common formulas", "plurals/common.go")],
  [("stack", "operand stack of the evaluation", "plurals/exp.go:myListener")], ["plurals.Eval", "File.XN64"])

p("C04", "Malformed or undefined plural rules give an error, never a panic or a value",
  "Evaluating a text that is not a valid plural expression (bad characters, missing operands, unbalanced parentheses, trailing tokens) reports an error, and so does a division or remainder by zero or a literal beyond 64 bits on the evaluated path; no text makes evaluation panic or hang. Evaluation is a pure function: the same text and n always give the same answer, whatever was evaluated before or concurrently.",
  ["inputs", "programs"], "every byte string given as a plural expression and every n, in any order of evaluations",
  "tests cover two erroneous inputs",
  ["plurals/exp.go", "plurals/err.go", "plurals/parser/plural_parser.go", "translator/plural.go"],
  [("error listener collects lexer and parser errors", "plurals/err.go"), ("recover turns run-time failures into errors", "plurals/exp.go:Eval")],
  [], ["plurals.Eval error result"])

p("C05", "Derived views are isolated from each other and from their origin",
  "A view obtained for a language, for a domain, from a request context or as a copy of the global instance starts with exactly its origin's settings and catalogs except for the requested change. Afterwards, switching the language, source language or domain of any one of origin, view or sibling, or binding or removing domains in it, is never observable through the others. Replacing the global instance affects only later package-level calls.",
  ["histories", "schedules"], "every interleaving of creating views (nested to any depth) with configuration operations on any of the live instances",
  "tests create a view and check one lookup; aliasing only shows when origin and view are modified afterwards",
  ["translations.go", "init.go", "context.go", "gettext.go"],
  [("clone copies the domain map and settings", "translations.go:clone"), ("WithContext derives from a copy of global", "context.go")],
  [("domains map of each instance", "must not be shared", "translations.go")], ["Locale/Domain/SourceCodeLocale/HasDomain and lookups of every live instance"])

p("C06", "The set of text domains follows bind, replace, remove and clear exactly",
  "Binding a domain from a source holding at least one loadable catalog installs exactly that source's catalogs, replacing whatever the domain held; a source without any loadable catalog leaves everything as it was. Removing a non-empty domain name that is present deletes just that domain and reports true, otherwise it changes nothing and reports false; removing the current domain, or clearing all domains, makes the default domain current and keeps language and source language. The presence test and the listing of domains always agree with this history, and no other operation changes the set.",
  ["histories"], "every sequence of bind, remove, clear, domain and language switches",
  "tests exercise one removal and one clear; replace-by-bind, failed bind and repeated removal are not covered in combination",
  ["translations.go", "init.go", "translaton.go"],
  [("BindFS installs only when something loaded", "translations.go:BindFS"), ("RemoveDomain/ClearDomains", "translations.go")],
  [("domains", "bound domains", "translations.go"), ("domain", "current domain", "translations.go")], ["HasDomain", "Domains", "Domain", "RemoveDomain result"])

p("C07", "Loading a source finds every readable catalog and survives bad files",
  "Loading a directory tree, file system or single file reads every file below it whose name ends in .po or .mo, at any depth, and registers each parsable one that states a language under its normalised language; other files are ignored. An unreadable or malformed file or directory never prevents the others from loading, never panics and never registers anything. When several files provide the same language, a .po file wins over a .mo file, and among files of one kind the last in lexical path order wins; loading reports success exactly when some file parsed.",
  ["configurations", "fault_sequences"], "every directory tree of catalogs and other files with read errors at any subset of directories and files",
  "tests load two well-formed fixture directories",
  ["translaton.go", "fs.go", "translations.go"],
  [("two walks, .mo then .po", "translaton.go:LoadFS"), ("AddOrReplace keyed by normalised language", "translaton.go"), ("pathFS handles a single file", "fs.go")],
  [("langs", "catalog per normalised language", "translaton.go")], ["Translation.LoadFS result", "Translation.Get", "Translations.BindFS / Load"])

p("C08", "Reading PO text recovers exactly the entries it states",
  "From every well-formed PO or POT text, reading recovers for each message its comments, context, singular, plural and translations exactly, whatever the line wrapping, blank lines, CRLF line ends, escapes or multi-line strings used, with the last duplicate of a context and message winning; a context or plural that is absent stays absent. A translation catalog keeps just the entries that have a translation, a template also the untranslated ones. Text that is not PO (unquoted or badly escaped strings, unknown lines) or is empty is reported as an error, never as a panic, a hang or a partial catalog.",
  ["inputs"], "every sequence of PO lines and every byte string",
  "tests parse a handful of documents; wrapping, ordering, termination and error placement combine freely in real files",
  ["translator/po.go", "translator/reader.go", "translator/util.go", "translator/pot.go"],
  [("line state machine with one-line push-back", "translator/po.go:readEntry"), ("line cursor", "translator/reader.go"), ("unquoting", "translator/util.go")],
  [("previousLineState", "which field the last line belonged to", "translator/po.go")], ["ReadPo/ReadPot result and error", "File.SortedEntry"])

p("C09", "Saving a catalog as PO and reading it back loses nothing",
  "For every catalog of entries with a translation, whatever bytes their texts contain, saving it as PO and reading the result back gives a catalog with the same entries, comments, headers and lookup answers. The saved text is well-formed PO using only standard escapes, has the header first, and states every entry once. Saving is deterministic: it depends only on the entries, not on insertion order or on the run, and a write that fails is reported as an error.",
  ["inputs", "histories"], "every set of entries (any bytes, any lengths, with and without context, plural, comments) in every insertion order",
  "tests save one fixture; wrapping and escaping bugs need particular lengths, blanks, newlines or bytes, order bugs need ties",
  ["translator/po.go", "translator/pot.go", "translator/wrap.go", "translator/entry.go", "translator/file.go", "translator/util.go"],
  [("SaveAsPo", "translator/po.go"), ("split wraps long strings", "translator/wrap.go"), ("quote escapes", "translator/util.go"), ("SortedEntry order", "translator/file.go")],
  [("entries", "catalog content", "translator/file.go")], ["SaveAsPo output", "ReadPo of it", "SortedEntry"])

p("C10", "A saved template lists every message once, without translations",
  "Saving a catalog as POT writes, for every entry, its comments, context, message and plural exactly once, with empty translations for every entry except the header, which keeps its text; reading that template back recovers the same comments, contexts, messages and plurals. Entries come in a deterministic order: the header first, then by source position comment with numbers compared numerically, then by context and message. A write that fails is reported as an error.",
  ["inputs", "histories"], "every set of entries and source-position comments in every insertion order",
  "tests save one fixture template",
  ["translator/pot.go", "translator/entry.go", "translator/file.go", "translator/wrap.go"],
  [("SaveAsPot", "translator/pot.go"), ("getSortKey pads numbers", "translator/entry.go")],
  [("entries", "catalog content", "translator/file.go")], ["SaveAsPot output", "ReadPot of it", "SortedEntry"])

p("C11", "Saving a catalog as MO and reading it back answers every lookup the same",
  "For every catalog of entries without NUL or EOT bytes in their parts, the saved MO file, read back, answers every singular and plural lookup and every header question exactly as the original catalog does. The saved file is a valid GNU MO file: magic, revision 0, string count, two descriptor tables lying inside the file, each string NUL-terminated at its stated offset, and the original strings in ascending byte order as lookup tools require. Saving is deterministic, and a write that fails is reported as an error.",
  ["inputs", "histories"], "every set of entries (any bytes except the format's separators) in every insertion order",
  "tests round-trip one fixture and never check the file layout",
  ["translator/mo.go", "translator/file.go", "translator/entry.go"],
  [("SaveAsMo two-pass offsets", "translator/mo.go"), ("context EOT id NUL plural encoding", "translator/mo.go:moMsgID")],
  [("offset tables", "descriptor tables", "translator/mo.go")], ["SaveAsMo bytes", "ReadMo of them"])

p("C12", "Reading MO files accepts both byte orders and rejects damage safely",
  "Every valid MO file, little- or big-endian, whatever the order and placement of its tables and strings, is read to exactly the entries it encodes (context, message, plural, translations). A file of a major revision other than 0 and 1 is reported as an error, and so is every truncated or corrupted file that no longer encodes a catalog; reading never panics, never hangs, and never allocates memory out of proportion to the input size.",
  ["inputs", "fault_sequences"], "every valid layout in both byte orders, every truncation point and every corruption of header or descriptor words",
  "tests read one little-endian fixture produced by one tool, plus a few broken headers",
  ["translator/mo.go"],
  [("magic selects byte order", "translator/mo.go:ReadMo"), ("bounds check before allocation", "translator/mo.go:ReadMo")],
  [], ["ReadMo result and error", "process memory"])

p("C13", "Formatting substitutes arguments and never alters anything else",
  "With no arguments every message is returned byte for byte, percent signs included. With arguments the message is formatted like the standard formatter, except that surplus arguments are ignored without any notice in the output, for every message and argument list, indexed verbs included. Formatting never modifies the caller's argument list, even when a slice with spare capacity is passed.",
  ["inputs", "histories"], "every format string (verbs, flags, explicit indexes, trailing or doubled percent signs) and every argument list, with reuse of the argument slice afterwards",
  "tests use ten format strings and fresh argument lists",
  ["f/format.go", "translator/file.go", "translator.go"],
  [("Format suppresses EXTRA notices", "f/format.go")], [("caller's slice", "must stay untouched", "f/format.go")], ["f.Format", "T/N/X/XN results", "argument slice after the call"])

p("C14", "A catalog's language and plural rule come from its current header entry",
  "The header values a catalog reports, its language and the plural rule its lookups use are those stated by the entry with empty context and message at the time of the question: parsed line by line as 'Name: value' with surrounding blanks trimmed, the first occurrence of a name winning, and lines without that shape ignored. Adding or replacing that entry takes effect for every later question, any other entry never changes them, and without it there are no headers, no language and no plural rule.",
  ["histories", "inputs"], "every header text and every order of adding entries, replacing the header and asking questions",
  "tests read headers of one static file",
  ["translator/file.go", "translator/plural.go", "translator/entry.go"],
  [("initHeader/initPlural caches", "translator/file.go"), ("AddEntry refreshes caches", "translator/file.go"), ("Plural-Forms pattern", "translator/plural.go")],
  [("headers, plural", "cached header values and rule", "translator/file.go:File")], ["File.GetHeader", "File.Lang", "File.XN64"])

p("C15", "Language codes are normalised to one canonical language_REGION form",
  "Every language code that names a language, in any of the customary spellings (hyphen or underscore, any letter case, script subtags, with or without region, with or without a POSIX encoding or modifier), is normalised to lowercase language, underscore, uppercase region, where a missing region is filled in with the likely one; spellings of the same language, script and region always give the same result, and normalising a result again changes nothing. Catalogs registered and languages selected under different spellings of one code therefore meet, and the empty code selects the system language.",
  ["inputs", "histories"], "every BCP-47 or POSIX style spelling of the languages in the specification's table",
  "tests normalise a few literal codes",
  ["locale/detect.go", "translations.go", "translaton.go"],
  [("NormalizeTag", "locale/detect.go"), ("SetLocale/SetSourceCodeLocale normalise", "translations.go"), ("AddOrReplace normalises", "translaton.go")],
  [("langs keys, locale", "normalised codes", "translaton.go, translations.go")], ["locale.Normalize", "Locale()", "lookups"])

p("C16", "Language negotiation returns the best language the catalogs support",
  "The language chosen for an HTTP request is the value of the configured language cookie if the request carries one, and otherwise always one of the supported languages of the current domain: the best match for the request's accepted languages taken in order of preference weight, the first listed one, or one written in the same script, when nothing matches, and the first listed one when the header is missing or malformed. Matching a list of wanted languages against a list of supported ones returns an index within the supported list, and an instance's own best match depends only on that instance's language and catalogs. No header or cookie content makes it panic.",
  ["inputs", "histories"], "every set of supported languages, cookie configuration and Accept-Language header, well-formed or not",
  "tests try three headers against one fixture",
  ["http.go", "matcher.go", "tag.go", "translations.go"],
  [("GetUserLang", "http.go"), ("Match/MatchTag", "matcher.go"), ("MostMatchLocale", "translations.go")],
  [("supported list", "Locales() of the current domain", "translations.go")], ["GetUserLang", "Match", "MostMatchLocale"])

p("C17", "Reported languages agree with the catalogs actually used",
  "The supported languages reported for an instance are exactly the source language plus the normalised languages of the current domain's catalogs, without duplicates and in lexical order. The language reported as used is the selected one exactly when the current domain has a catalog for it and the source language otherwise, so it always names the language in which lookups answer. Domain, language and source language read back as they were last set (normalised).",
  ["histories"], "every history of binds, removals and switches",
  "tests check the lists for one loaded fixture",
  ["translations.go", "init.go", "translaton.go"],
  [("Locales/UsedLocale", "translations.go")], [("locale, sourceCodeLocale, domain, langs", "selection and catalogs", "translations.go")], ["Locales", "UsedLocale", "Locale", "SourceCodeLocale", "Domain"])

p("C18", "Concurrent lookups are race-free and answer as sequential ones do",
  "Any number of goroutines may concurrently perform lookups, header and language queries, language matching and derive views from shared instances, including catalogs without a header and messages evaluated by a plural rule for the first time. Every answer is the one the same call gives sequentially, no data race occurs, and nothing a concurrent reader does is observable afterwards.",
  ["schedules"], "every interleaving of read-only operations and of modifications confined to one goroutine's own view",
  "tests are sequential",
  ["translator/file.go", "translations.go", "plurals/exp.go", "tag.go", "http.go"],
  [("lookups do not write shared caches", "translator/file.go"), ("views own their domain map", "translations.go:clone"), ("tag cache is a sync.Map", "tag.go")],
  [("headers, plural caches", "lazily computed values", "translator/file.go"), ("cachedTag", "tag cache", "tag.go")], ["results of concurrent calls", "race detector"])

p("C19", "Template extraction finds exactly the keyword calls with literal arguments",
  "From every parsable template, the extractor collects precisely the calls of configured keywords, as functions, methods, fields or variables, in every construct that can hold a call (actions, conditions, loops, with, nested and piped expressions, definitions and invocations), whose used argument positions are string literals, taking context, message and plural from the declared positions and a piped literal as last argument. Each carries its file and line; calls with too few or non-literal arguments, other names, comments, plain text and empty messages contribute nothing.",
  ["programs", "inputs"], "every template built from the constructs of Go templates and every keyword declaration",
  "tests extract from two fixture templates",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/helper.go"],
  [("recursive AST walk", "cmd/xtemplate/internal/run.go:resolveNode"), ("argument filter", "cmd/xtemplate/internal/run.go:filter")],
  [("entries", "collected messages", "cmd/xtemplate/internal/param.go")], ["POT written by a run"])

p("C20", "Extracted messages are merged into one deterministic template file",
  "All occurrences of the same context and message, across files, templates and keywords, become one entry that lists every occurrence; when a message is used both with and without plural, the first use decides and the conflicting ones are reported and left out. The written template is independent of everything but the inputs and options (and the creation date), flags every message containing a percent sign as a format and no other, starts with exactly one header that records the options and has a plural-forms line exactly when some entry has a plural, and is readable back as such.",
  ["inputs", "histories"], "every set of template files with overlapping messages, every keyword list",
  "tests check single insertions; merging across several files, templates and conflicting uses is not covered",
  ["cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/run.go", "translator/pot.go"],
  [("Context.Add merges by context and id", "cmd/xtemplate/internal/param.go"), ("header", "cmd/xtemplate/internal/param.go"), ("SaveAsPot", "translator/pot.go")],
  [("entries, hasPlural", "messages collected so far", "cmd/xtemplate/internal/param.go")], ["POT written by a run", "warnings on stderr"])

p("C21", "A failed extraction run reports an error and leaves existing output alone",
  "If the keyword list or input pattern is invalid (or, for the command, missing or blank), an input file cannot be read or parsed, or the output cannot be opened, the run returns an error (the command exits non-zero) and an already existing output file keeps its content. One bad file does not keep the remaining files from being examined, and exactly the files that failed are reported as failed. A run without failures exits with zero and replaces the output with the complete template.",
  ["fault_sequences", "configurations"], "every subset of failing inputs, options and outputs, with and without a previous output file",
  "tests check only successful runs",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "cmd/xtemplate/main.go"],
  [("Run collects the first error and skips writing", "cmd/xtemplate/internal/run.go"), ("output opened only when writing", "cmd/xtemplate/internal/param.go"), ("exit status", "cmd/xtemplate/main.go")],
  [("output file", "previous content", "file system")], ["Run error", "exit status", "output file content"])

p("C22", "Keyword declarations are parsed exactly or rejected",
  "A keyword list is a semicolon-separated sequence of names, each optionally followed by a colon and argument positions: message; message and plural; context marked with c and message; or context, message and plural. Blanks around the parts are ignored, a bare name means the first argument is the message, and the result keeps order and positions. Anything else (empty name or position, non-numeric position, missing or misplaced c, too many positions or colons) is rejected with an error and never yields a partial list.",
  ["inputs"], "every keyword string",
  "tests parse about twenty literals",
  ["cmd/xtemplate/internal/keyword.go"],
  [("ParseKeywords", "cmd/xtemplate/internal/keyword.go")], [], ["ParseKeywords", "behaviour of a run with that list"])

p("C23", "Every short form answers exactly like the full lookup it abbreviates",
  "For every state of the library and all arguments, each abbreviated lookup (without context, with machine-size count, with identical singular and plural) gives the same answer as the general lookup with the omitted parts empty, on instances, on the no-op translator for unknown languages, and on the package-level functions applied to the current global instance. Marking functions return their arguments unchanged.",
  ["inputs", "histories"], "every library state reached by any history and every argument combination",
  "tests call each short form a few times with literals",
  ["gettext.go", "translations.go", "mark.go", "translator.go", "init.go"],
  [("delegation to X and XN64", "gettext.go, translations.go")], [("global", "package-level instance", "init.go")], ["T N N1 N64 N1_64 X XN XN1 XN64 XN1_64, Mark"])

p("C24", "Catalogs and translators added by hand serve exactly their language",
  "Adding a catalog or a translator of the application's own to a domain's translation registers it under the normalised form of the language it states, replaces just the one registered there before, which is returned, and leaves every other language alone; one that states no language changes nothing. Reading a single PO or MO content or file does the same with the catalog read, and reports an error and changes nothing when the content is malformed or unreadable. A lookup hands context, message, plural, count and arguments unchanged to the translator registered for the selected language and returns its answer unchanged; where none is registered the no-op translator answers with the formatted source text.",
  ["histories", "inputs"], "every sequence of additions and reads over languages, spellings of a language, own translators and catalogs, and every lookup after each prefix of it",
  "tests add one translator each time and never look at what it is handed or at what replacing returns",
  ["translaton.go", "translator.go", "translations.go", "translator/translator.go"],
  [("AddOrReplace keys by normalised language", "translaton.go:AddOrReplace"), ("LoadPo, LoadMo, LoadPoFile", "translaton.go"), ("lookups delegate to the registered translator", "translations.go:X, XN64")],
  [("langs", "translator by language", "translaton.go:Translation.langs")], ["Translation.AddOrReplace, Get, LoadPO, LoadMO results", "Translations lookups", "the calls an own translator receives"])

p("C25", "A message keeps its identity from template to translated page",
  "For every set of executable templates: when the messages xtemplate extracts are translated, the file is saved as PO or MO and bound, then executing the same templates with the instance's lookups in that language writes the translation of every literal call whose message was translated, the plural form the delivered rule selects, and the source text for those left untranslated, for whatever bytes the messages and contexts contain (but NUL and EOT, the separators of MO files). In the source language, or in a view with no such catalog, the templates write their source texts.",
  ["programs", "inputs", "configurations"], "every executable template built from the constructs of Go templates, every subset of messages translated, every delivery format and plural rule",
  "tests look at extraction, files and lookups separately; that the three agree on what a message is depends on every one of them",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "translator/pot.go", "translator/po.go", "translator/mo.go", "translations.go", "translator/file.go"],
  [("extraction", "cmd/xtemplate/internal/run.go"), ("template file", "translator/pot.go"), ("ReadPot, SaveAsPo, SaveAsMo", "translator/po.go, translator/mo.go"), ("lookups", "translations.go")],
  [("entries", "messages by context and id, at every stage", "cmd/xtemplate/internal/param.go, translator/file.go")], ["what executing the templates writes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
