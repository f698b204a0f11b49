package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/youthlin/t"
)

func init() { handlers["reg"] = replayReg }

type regEntry struct {
	C, Id, Id2, S string
	N             []string
}
type regFile struct {
	Lang, Hdr string
	Ents      []regEntry
}
type regProbe struct {
	C, Id, Id2, Arg string
	Hi, N           int64
}
type regStep struct {
	Op, D, L, S, Via, Ret string
	I                     int
}
type regObs struct {
	Loc, Dom, Src, Used string
	Has                 []bool
	Locs, X, Xn         []string
}
type regDefs struct {
	Probes []regProbe
	Doms   []string
	Srcs   map[string][]regFile
	fsys   map[string]fsFS
	dirs   map[string]string
}

var (
	regOnce sync.Once
	defs    *regDefs
)

// text is what a token of the specification stands for in the real catalogs.
func text(tok string) string {
	if tok == "" {
		return ""
	}
	return tok + " %s"
}

func loadDefs() *regDefs {
	regOnce.Do(func() {
		raw, err := os.ReadFile(opt("defs", ""))
		must(err)
		line := strings.SplitN(string(raw), "\n", 2)[0]
		var s string
		must(json.Unmarshal([]byte(line), &s))
		d := &regDefs{fsys: map[string]fsFS{}, dirs: map[string]string{}}
		must(json.Unmarshal([]byte(s), d))
		for i := range d.Probes {
			d.Probes[i].N += d.Probes[i].Hi << 32
		}
		for name, files := range d.Srcs {
			m := fstest.MapFS{"notes.txt": {Data: []byte("not a catalog")}}
			for i, f := range files {
				m[fmt.Sprintf("sub%d/%d.po", i%2, i)] = &fstest.MapFile{Data: []byte(regPo(f))}
			}
			if len(files) == 0 {
				m["broken.po"] = &fstest.MapFile{Data: []byte("not a po file\n")}
				m["broken.mo"] = &fstest.MapFile{Data: []byte("\xde\x12\x04\x95junk")}
			}
			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "src")
			must(err)
			must(os.CopyFS(dir, m))
			d.fsys[name], d.dirs[name] = m, dir
		}
		defs = d
	})
	return defs
}

func regPo(f regFile) string {
	var b strings.Builder
	b.WriteString("msgid \"\"\nmsgstr \"\"\n\"Project-Id-Version: x\\n\"\n")
	if f.Lang != "" {
		fmt.Fprintf(&b, "\"Language: %s\\n\"\n", f.Lang)
	}
	if f.Hdr != "" {
		fmt.Fprintf(&b, "\"Plural-Forms: %s\\n\"\n", f.Hdr)
	}
	for _, e := range f.Ents {
		b.WriteString("\n")
		if e.C != "" {
			fmt.Fprintf(&b, "msgctxt \"%s\"\n", e.C)
		}
		fmt.Fprintf(&b, "msgid \"%s\"\n", text(e.Id))
		if e.Id2 != "" {
			fmt.Fprintf(&b, "msgid_plural \"%s\"\n", text(e.Id2))
		}
		if len(e.N) == 0 {
			fmt.Fprintf(&b, "msgstr \"%s\"\n", text(e.S))
		}
		for i, s := range e.N {
			fmt.Fprintf(&b, "msgstr[%d] \"%s\"\n", i, text(s))
		}
	}
	return b.String()
}

// regWorld performs steps on the real library.
type regWorld struct {
	d    *regDefs
	inst []*t.Translations
	g    int
}

func newWorld(d *regDefs) *regWorld {
	g := t.NewTranslations()
	t.SetGlobal(g)
	return &regWorld{d: d, inst: []*t.Translations{g}, g: 1}
}

const none = "-"

func (w *regWorld) do(s regStep) (ret string) {
	var ts *t.Translations
	if s.I >= 1 && s.I <= len(w.inst) {
		ts = w.inst[s.I-1]
	}
	pkg := s.Via == "p"
	ret = "void"
	switch s.Op {
	case "bind":
		if pkg {
			t.Bind(s.D, w.d.dirs[s.S])
		} else {
			ts.BindFS(s.D, w.d.fsys[s.S])
		}
	case "load":
		t.Load(w.d.dirs[s.S])
	case "remove":
		if pkg {
			ret = fmt.Sprint(t.RemoveDomain(s.D))
		} else {
			ret = fmt.Sprint(ts.RemoveDomain(s.D))
		}
	case "clear":
		if pkg {
			t.ClearDomains()
		} else {
			ts.ClearDomains()
		}
	case "setdom":
		if pkg {
			t.SetDomain(s.D)
		} else {
			ts.SetDomain(s.D)
		}
	case "setloc":
		if pkg {
			t.SetLocale(s.L)
		} else {
			ts.SetLocale(s.L)
		}
	case "setsrc":
		if pkg {
			t.SetSourceCodeLocale(s.L)
		} else {
			ts.SetSourceCodeLocale(s.L)
		}
	case "new":
		w.inst = append(w.inst, t.NewTranslations())
	case "copy":
		w.inst = append(w.inst, t.Global())
	case "L":
		if pkg {
			w.inst = append(w.inst, t.L(s.L))
		} else {
			w.inst = append(w.inst, ts.L(s.L))
		}
	case "D":
		if pkg {
			w.inst = append(w.inst, t.D(s.D))
		} else {
			w.inst = append(w.inst, ts.D(s.D))
		}
	case "ctx":
		ctx := context.Background()
		if s.D != none {
			ctx = t.SetCtxDomain(ctx, s.D)
		}
		if s.L != none {
			ctx = t.SetCtxLocale(ctx, s.L)
		}
		w.inst = append(w.inst, t.WithContext(ctx))
	case "setglobal":
		t.SetGlobal(ts)
		w.g = s.I
	default:
		must(fmt.Errorf("unknown op %q", s.Op))
	}
	return
}

// pkgAPI gives the package-level functions the shape of an instance.
type api struct {
	name                      string
	domain, locale, src, used func() string
	has                       func(string) bool
	domains, locales          func() []string
	tT                        func(string, ...any) string
	tX                        func(string, string, ...any) string
	tN                        func(string, string, int, ...any) string
	tN64                      func(string, string, int64, ...any) string
	tN1                       func(string, int, ...any) string
	tN1_64                    func(string, int64, ...any) string
	tXN                       func(string, string, string, int, ...any) string
	tXN64                     func(string, string, string, int64, ...any) string
	tXN1                      func(string, string, int, ...any) string
	tXN1_64                   func(string, string, int64, ...any) string
}

func instAPI(ts *t.Translations, name string) api {
	return api{name, ts.Domain, ts.Locale, ts.SourceCodeLocale, ts.UsedLocale, ts.HasDomain, ts.Domains, ts.Locales,
		ts.T, ts.X, ts.N, ts.N64, ts.N1, ts.N1_64, ts.XN, ts.XN64, ts.XN1, ts.XN1_64}
}

func pkgAPI() api {
	return api{"package", t.Domain, t.Locale, t.SourceCodeLocale, t.UsedLocale, t.HasDomain, t.Domains, t.Locales,
		t.T, t.X, t.N, t.N64, t.N1, t.N1_64, t.XN, t.XN64, t.XN1, t.XN1_64}
}

type diff struct {
	Where, What string
	Obs, Exp    any
}

type comparer struct {
	n     int
	diffs []diff
}

func (c *comparer) eq(where, what string, obs, exp any) {
	c.n++
	o, e := fmt.Sprintf("%#v", obs), fmt.Sprintf("%#v", exp)
	if o != e && len(c.diffs) < 10 {
		c.diffs = append(c.diffs, diff{where, what, obs, exp})
	}
}

// observe compares everything visible through one instance (or the package
// functions) with the specification.  focus selects what a property is about.
func observe(c *comparer, a api, d *regDefs, e regObs, focus func(string) bool) {
	if focus("settings") {
		c.eq(a.name, "Locale", a.locale(), e.Loc)
		c.eq(a.name, "Domain", a.domain(), e.Dom)
		c.eq(a.name, "SourceCodeLocale", a.src(), e.Src)
	}
	if focus("domains") {
		var want []string
		for i, name := range d.Doms {
			c.eq(a.name, "HasDomain("+name+")", a.has(name), e.Has[i])
			if e.Has[i] {
				want = append(want, name)
			}
		}
		got := append([]string(nil), a.domains()...)
		sort.Strings(got)
		sort.Strings(want)
		c.eq(a.name, "Domains", strings.Join(got, "|"), strings.Join(want, "|"))
		c.eq(a.name, "len(Domains)", len(got), len(want))
	}
	if focus("locales") {
		c.eq(a.name, "Locales", strings.Join(a.locales(), " "), strings.Join(e.Locs, " "))
		c.eq(a.name, "UsedLocale", a.used(), e.Used)
	}
	for i, p := range d.Probes {
		var args []any
		if p.Arg != "" {
			args = []any{p.Arg, "surplus"}
		}
		id, id2 := text(p.Id), text(p.Id2)
		if focus("lookups") {
			c.eq(a.name, fmt.Sprintf("X(%q,%q)", p.C, id), a.tX(p.C, id, args...), e.X[i])
			c.eq(a.name, fmt.Sprintf("XN64(%q,%q,%q,%d)", p.C, id, id2, p.N), a.tXN64(p.C, id, id2, p.N, args...), e.Xn[i])
		}
		if focus("short") {
			shortForms(c, a, p, id, id2, args, e.X[i], e.Xn[i])
		}
	}
}

func shortForms(c *comparer, a api, p regProbe, id, id2 string, args []any, x, xn string) {
	n := int(p.N)
	where := a.name
	m1 := t.Mark.T(id)
	n1, n2 := t.Mark.N(id, id2)
	x1, x2 := t.Mark.X(p.C, id)
	y1, y2, y3 := t.Mark.XN(p.C, id, id2)
	c.eq("Mark", "T N X XN", []string{m1, n1, n2, x1, x2, y1, y2, y3}, []string{id, id, id2, p.C, id, p.C, id, id2})
	c.eq(where, "XN("+p.C+","+id+")", a.tXN(p.C, id, id2, n, args...), xn)
	if p.C == "" {
		c.eq(where, "T("+id+")", a.tT(id, args...), x)
		c.eq(where, "N("+id+")", a.tN(id, id2, n, args...), xn)
		c.eq(where, "N64("+id+")", a.tN64(id, id2, p.N, args...), xn)
	}
	if id2 == "" {
		c.eq(where, "XN1("+p.C+","+id+")", a.tXN1(p.C, id, n, args...), xn)
		c.eq(where, "XN1_64("+p.C+","+id+")", a.tXN1_64(p.C, id, p.N, args...), xn)
		if p.C == "" {
			c.eq(where, "N1("+id+")", a.tN1(id, n, args...), xn)
			c.eq(where, "N1_64("+id+")", a.tN1_64(id, p.N, args...), xn)
		}
	}
}

func focusOpt() func(string) bool {
	f := "," + opt("focus", "settings,domains,locales,lookups,rets") + ","
	return func(s string) bool { return strings.Contains(f, ","+s+",") }
}

func replayReg(raw []byte) Result {
	var c struct {
		H   []regStep
		G   int
		Obs []regObs
	}
	must(json.Unmarshal(raw, &c))
	d := loadDefs()
	focus := focusOpt()
	var cmp comparer
	// the first pass observes only at the end, the second after every step
	for pass := 0; pass < 2; pass++ {
		w := newWorld(d)
		for k, s := range c.H {
			ret := w.do(s)
			if focus("rets") {
				cmp.eq(fmt.Sprintf("step %d", k+1), s.Op+"("+s.D+")", ret, s.Ret)
			}
			if pass == 1 {
				for i, ts := range w.inst {
					observe(&comparer{}, instAPI(ts, ""), d, c.Obs[min(i, len(c.Obs)-1)], focus)
				}
			}
		}
		for i, e := range c.Obs {
			observe(&cmp, instAPI(w.inst[i], fmt.Sprintf("instance %d", i+1)), d, e, focus)
		}
		observe(&cmp, pkgAPI(), d, c.Obs[c.G-1], focus)
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n,
			Note: fmt.Sprintf("after %s: %s.%s differs", showSteps(c.H), cmp.diffs[0].Where, cmp.diffs[0].What)}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

func showSteps(h []regStep) string {
	var b []string
	for _, s := range h {
		b = append(b, fmt.Sprintf("%s(i%d %s %s %s %s)", s.Op, s.I, s.D, s.L, s.S, s.Via))
	}
	return strings.Join(b, "; ")
}

type fsFS = fs.FS
