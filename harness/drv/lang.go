package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
)

func init() {
	handlers["lang"] = replayLang
	handlers["sys"] = replaySys
	handlers["nego"] = replayNego
	handlers["match"] = replayMatch
	recorders["lang"] = recordLang
}

func poSaying(lang, msg string) []byte {
	return []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\n\"\n\nmsgid \"hello\"\nmsgstr \"%s\"\n", lang, msg))
}

func catalogOf(lang, msg string) *translator.File {
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: "Language: " + lang + "\n"})
	f.AddEntry(&translator.Entry{MsgID: "hello", MsgStr: msg})
	return f
}

func verdict(cmp *comparer, what string, args ...any) Result {
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n,
			Note: fmt.Sprintf("%s: %s is %v and should be %v", fmt.Sprintf(what, args...), cmp.diffs[0].What, cmp.diffs[0].Obs, cmp.diffs[0].Exp)}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

// replayLang: one spelling of a language code.
func replayLang(raw []byte) Result {
	var c struct{ Code, Want, Plain Bytes }
	must(json.Unmarshal(raw, &c))
	code, want, plain := string(c.Code), string(c.Want), string(c.Plain)
	var cmp comparer
	cmp.eq(code, "Normalize", locale.Normalize(code), want)
	cmp.eq(want, "Normalize again", locale.Normalize(want), want)
	ts := t.NewTranslations()
	ts.SetLocale(code)
	cmp.eq(code, "SetLocale", ts.Locale(), want)
	ts.SetSourceCodeLocale(code)
	cmp.eq(code, "SetSourceCodeLocale", ts.SourceCodeLocale(), want)
	cmp.eq(code, "Locales", ts.Locales(), []string{want})
	cmp.eq(code, "L", ts.L(code).Locale(), want)
	// a catalog under one spelling, selected under another
	for _, pair := range [][2]string{{code, plain}, {plain, code}, {code, want}, {want, code}} {
		reg, sel := pair[0], pair[1]
		where := fmt.Sprintf("catalog %q selected as %q", reg, sel)
		ts := t.NewTranslations()
		ts.SetSourceCodeLocale("tlh")
		ts.BindFS("d", fstest.MapFS{"x.po": {Data: poSaying(reg, "answer")}})
		ts.SetDomain("d")
		cmp.eq(where, "lookup in a view", ts.L(sel).T("hello"), "answer")
		ts.SetLocale(sel)
		cmp.eq(where, "lookup", ts.T("hello"), "answer")
		cmp.eq(where, "UsedLocale", ts.UsedLocale(), want)
		cmp.eq(where, "MostMatchLocale", ts.MostMatchLocale(), want)
		// registering under the other spelling replaces
		tr := t.NewTranslation("d", catalogOf(reg, "first"))
		pre := tr.AddOrReplace(catalogOf(sel, "second"))
		cmp.eq(where, "replaced catalog", pre != nil && pre.X("", "hello") == "first", true)
		cmp.eq(where, "catalog after replacing", tr.GetOrNoop(want).X("", "hello"), "second")
		_, ok := tr.Get(want)
		cmp.eq(where, "registered under the canonical code", ok, true)
	}
	return verdict(&cmp, "language code %q", code)
}

// replaySys: the empty code selects the language of the environment.
func replaySys(raw []byte) Result {
	var c struct{ Code, Want Bytes }
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	for _, vars := range [][]string{{"LANG"}, {"LC_ALL"}, {"LC_MESSAGES"}, {"LANG", "LC_ALL"}} {
		for _, v := range []string{"LANG", "LC_ALL", "LC_MESSAGES", "LANGUAGE", "LC_CTYPE"} {
			os.Unsetenv(v)
		}
		for _, v := range vars {
			os.Setenv(v, string(c.Code))
		}
		where := fmt.Sprint(vars)
		cmp.eq(where, "GetDefault", locale.GetDefault(), string(c.Want))
		ts := t.NewTranslations()
		cmp.eq(where, "language of a new instance", ts.Locale(), string(c.Want))
		ts.SetLocale("fr")
		ts.SetLocale("")
		cmp.eq(where, "SetLocale of the empty code", ts.Locale(), string(c.Want))
		cmp.eq(where, "L of the empty code", ts.L("").Locale(), string(c.Want))
	}
	os.Unsetenv("LC_ALL")
	os.Unsetenv("LC_MESSAGES")
	os.Setenv("LANG", "C.UTF-8")
	return verdict(&cmp, "system language %q", c.Code)
}

type negoCase struct {
	Src, Header, Cookie Bytes
	Cats, Sup, Want     []Bytes
	Cookies             [][]Bytes
	NoHdr               bool
}

// userLang asks the package for a request, with the global instance as described.
func userLang(c negoCase) (ts *t.Translations, got string) {
	ts = t.NewTranslations()
	ts.SetSourceCodeLocale(string(c.Src))
	fs := fstest.MapFS{}
	for i, l := range c.Cats {
		fs[fmt.Sprintf("%d.po", i)] = &fstest.MapFile{Data: poSaying(string(l), "in "+string(l))}
	}
	ts.BindFS("other", fstest.MapFS{"x.po": {Data: poSaying("ja", "x")}})
	ts.BindFS("d", fs)
	ts.SetDomain("d")
	old := t.Global()
	t.SetGlobal(ts)
	defer t.SetGlobal(old)
	r, err := http.NewRequest("GET", "http://localhost/", nil)
	must(err)
	if !c.NoHdr {
		r.Header["Accept-Language"] = []string{string(c.Header)}
	}
	var cs []string
	for _, p := range c.Cookies {
		cs = append(cs, string(p[0])+"="+string(p[1]))
	}
	if cs != nil {
		r.Header["Cookie"] = []string{strings.Join(cs, "; ")}
	}
	if string(c.Cookie) == "lang" {
		return ts, t.GetUserLang(r)
	}
	return ts, t.GetUserLang(r, t.WithCookieName(string(c.Cookie)))
}

func strs(bs []Bytes) []string {
	r := []string{}
	for _, b := range bs {
		r = append(r, string(b))
	}
	return r
}

func among(s string, set []string) bool {
	for _, x := range set {
		if s == x {
			return true
		}
	}
	return false
}

// globalMatch asks the package-level function while ts is the global instance.
func globalMatch(ts *t.Translations) string {
	old := t.Global()
	t.SetGlobal(ts)
	defer t.SetGlobal(old)
	return t.MostMatchLocale()
}

func replayNego(raw []byte) Result {
	var c negoCase
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	ts, got := userLang(c)
	cmp.eq("instance", "supported languages", ts.Locales(), strs(c.Sup))
	want := strs(c.Want)
	cmp.n++
	if !among(got, want) {
		cmp.eq("GetUserLang", "answer", got, "one of "+fmt.Sprint(want))
	}
	// the instance's own best match: what is supported matches itself, whatever the global instance is
	for _, l := range strs(c.Sup) {
		ts.SetLocale(l)
		cmp.eq("MostMatchLocale with "+l+" selected", "answer", ts.MostMatchLocale(), l)
		cmp.eq("package-level MostMatchLocale with "+l+" selected", "answer", globalMatch(ts), l)
	}
	return verdict(&cmp, "Accept-Language %q, cookies %q (configured %q), supported %q", c.Header, c.Cookies, c.Cookie, strs(c.Sup))
}

func replayMatch(raw []byte) Result {
	var c struct {
		Sup, Wanted []Bytes
		Want        []int
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	sup, wanted := strs(c.Sup), strs(c.Wanted)
	judge := func(name string, index int) {
		cmp.n++
		for _, w := range c.Want {
			if w == index+1 {
				return
			}
		}
		cmp.eq(name, "index", index+1, fmt.Sprintf("one of %v", c.Want))
	}
	_, i, _ := t.Match(sup, wanted)
	judge("Match", i)
	var st, wt []language.Tag
	for _, s := range sup {
		st = append(st, language.Make(s))
	}
	for _, s := range wanted {
		wt = append(wt, language.Make(s))
	}
	_, i, _ = t.MatchTag(st, wt)
	judge("MatchTag", i)
	if len(wanted) == 1 {
		// an instance with these catalogs and this language selected
		ts := t.NewTranslations()
		ts.SetSourceCodeLocale(sup[0])
		fs := fstest.MapFS{}
		for i, s := range sup[1:] {
			fs[fmt.Sprint(i, ".po")] = &fstest.MapFile{Data: poSaying(s, "x")}
		}
		ts.BindFS("d", fs)
		ts.SetDomain("d")
		ts.SetLocale(wanted[0])
		got := ts.MostMatchLocale()
		want := []string{ts.Locales()[0]}
		for _, w := range c.Want {
			want = append(want, locale.Normalize(sup[w-1]))
		}
		cmp.n++
		if !among(got, want) {
			cmp.eq("MostMatchLocale", "answer", got, "one of "+fmt.Sprint(want))
		}
		cmp.eq("package-level MostMatchLocale", "answer", globalMatch(ts), got)
	}
	return verdict(&cmp, "Match(%q, %q)", sup, wanted)
}

// ---- recording

func recordLang(r *rand.Rand, n int, emit func(any)) {
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	caseOf := func(s string) string {
		switch r.Intn(4) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		case 2:
			b := []byte(s)
			for i := range b {
				if r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			return string(b)
		}
		return s
	}
	langs := strings.Fields("en fr de es pt it ru ja ko zh ar he el hi fi tr pl cs")
	more := strings.Fields("nl sv da nb vi id ca cy sw fil uk bg fa bn ta th ka haw gsw yue sr az uz pa mn iw in tl")
	regions := strings.Fields("US GB AU IE FR CA CH DE AT ES MX PT BR CN TW HK MO SG RU RS IN IT JP KR EG IL 419 001 AR BE NO UA PK")
	scripts := strings.Fields("Latn Cyrl Hans Hant Arab Guru Mong Jpan Grek Deva")
	code := func(ls []string) string {
		s := caseOf(pick(ls...))
		if r.Intn(4) == 0 {
			s += pick("-", "_") + caseOf(pick(scripts...))
		}
		if r.Intn(2) == 0 {
			s += pick("-", "_") + caseOf(pick(regions...))
		}
		if r.Intn(12) == 0 {
			s += pick(".UTF-8", "@euro", "-1996", "_x-priv", "-u-hc-h12", ".utf8")
		}
		return s
	}
	safe := func(line ev, f func()) {
		line["panic"] = ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					line["panic"] = fmt.Sprint(e)
				}
			}()
			f()
		}()
		emit(line)
	}
	bs := func(xs []string) []Bytes {
		r := []Bytes{}
		for _, x := range xs {
			r = append(r, Bytes(x))
		}
		return r
	}
	for i := 0; i < n; i++ {
		switch what := opts["what"]; {
		case what == "norm":
			s := code(append(langs, more...))
			if r.Intn(10) == 0 {
				b := make([]byte, r.Intn(12))
				for k := range b {
					b[k] = "abzAZ09-_.@ \x00\xff"[r.Intn(14)]
				}
				s = string(b)
			}
			line := ev{"k": "norm", "code": Bytes(s), "got": Bytes{}}
			safe(line, func() {
				line["got"] = Bytes(locale.Normalize(s))
				ts := t.NewTranslations()
				if ts.SetLocale(s); s != "" && ts.Locale() != locale.Normalize(s) {
					line["got"] = Bytes("SetLocale: " + ts.Locale())
				}
			})
		case what == "match" || r.Intn(3) == 0:
			list := func() []string {
				s := []string{}
				for k := 1 + r.Intn(5); k > 0; k-- {
					s = append(s, strings.NewReplacer(".UTF-8", "", ".utf8", "", "@euro", "").Replace(code(langs)))
				}
				return s
			}
			sup, wanted := list(), list()
			line := ev{"k": "match", "sup": bs(sup), "want": bs(wanted), "got": 0}
			safe(line, func() {
				_, index, _ := t.Match(sup, wanted)
				line["got"] = index + 1
			})
		default:
			c := negoCase{Src: Bytes(pick("en_US", "zh_CN", "fr_FR", "ru_RU")), Cookie: Bytes("lang")}
			for k := r.Intn(5); k > 0; k-- {
				c.Cats = append(c.Cats, Bytes(locale.Normalize(pick(langs...)+"_"+pick(regions...))))
			}
			var els []string
			for k := r.Intn(5); k > 0; k-- {
				e := strings.ReplaceAll(code(langs), "_", "-")
				switch r.Intn(9) {
				case 0:
					e += fmt.Sprintf(";q=0.%d", r.Intn(1000))
				case 1:
					e += fmt.Sprintf(" ; q=0.%d", r.Intn(10))
				case 2:
					e += pick(";q=1", ";q=0", ";q=1.000", ";q=0.000", ";q=x", ";q=2", ";q=-1", ";q", ";q=", ";Q=0.3", ";x=1", ";q=0.5;v=b3", ";q=NaN", ";q=1e9")
				case 3:
					e = pick("*", "*;q=0.1", "", " ", "english", "xx", "en-", "-", "e n", "fr/", "\x00", "\xff", strings.Repeat("a-", 60), "i-klingon", "x-y", "und", "art-lojban", strings.Repeat("a", 300), "\"", "en;en")
				}
				els = append(els, e)
			}
			c.Header = Bytes(strings.Join(els, pick(",", ", ", " ,")))
			if r.Intn(4) == 0 {
				c.Cookie = Bytes("pref")
			}
			for k := r.Intn(3); r.Intn(3) == 0 && k > 0; k-- {
				c.Cookies = append(c.Cookies, []Bytes{Bytes(pick("lang", "pref", "x")), Bytes(pick("fr_FR", "xx", "", "zh-Hant", "a.b!c"))})
			}
			line := ev{"k": "nego", "header": c.Header, "cookie": c.Cookie, "cookies": append([][]Bytes{}, c.Cookies...), "got": Bytes{}, "sup": []Bytes{}}
			safe(line, func() {
				ts, got := userLang(c)
				line["sup"], line["got"] = bs(ts.Locales()), Bytes(got)
			})
		}
	}
}
