package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func init() { handlers["conc"] = replayConc }

type concOp struct {
	Op, On, D, L, S string
	K               int
}
type concCase struct {
	Setup   []regStep
	Progs   [][]concOp
	Answers [][]string
	Order   []int
	Raw     map[string]regFile
	Obs     []regObs
	G       int
}

// yielding is an argument whose formatting lets others run and asks the
// library itself, as arguments of a program may.
type yielding struct {
	s   string
	ask bool
}

func (y yielding) String() string {
	runtime.Gosched()
	if y.ask {
		t.T("m %s", "")
		t.N64("p %s", "ps %s", 2, "")
	}
	runtime.Gosched()
	return y.s
}

// concWorld is what the goroutines share.
type concWorld struct {
	*regWorld
	raw    map[string]*translator.File
	serial int
	args   [][]any // of the probes, with room behind, as a caller may pass them
}

var worlds int

func newConcWorld(c *concCase, ask bool) *concWorld {
	d := loadDefs()
	worlds++
	w := &concWorld{regWorld: newWorld(d), raw: map[string]*translator.File{}, serial: worlds}
	for _, s := range c.Setup {
		w.do(s)
	}
	for name, f := range c.Raw {
		w.raw[name] = concFile(f)
	}
	for _, p := range d.Probes {
		var a []any
		if p.Arg != "" {
			a = append(make([]any, 0, 4), yielding{p.Arg, ask}, "surplus")
		}
		w.args = append(w.args, a)
	}
	return w
}

// concFile makes a catalog, one without a header when it has nothing to state.
func concFile(f regFile) *translator.File {
	if f.Lang != "" {
		r, err := translator.ReadPo([]byte(regPo(f)))
		must(err)
		return r
	}
	r := new(translator.File)
	for _, e := range f.Ents {
		x := &translator.Entry{MsgCtxt: e.C, MsgID: text(e.Id), MsgID2: text(e.Id2), MsgStr: text(e.S)}
		for _, s := range e.N {
			x.MsgStrN = append(x.MsgStrN, text(s))
		}
		r.AddEntry(x)
	}
	return r
}

func request(accept string) *http.Request {
	r, err := http.NewRequest("GET", "http://localhost/", nil)
	must(err)
	r.Header.Set("Accept-Language", accept)
	return r
}

func fileText(f *translator.File, how string) string {
	var b bytes.Buffer
	switch how {
	case "po":
		f.SaveAsPo(&b)
	case "pot":
		f.SaveAsPot(&b)
	case "mo":
		if err := f.SaveAsMo(&b); err != nil {
			return "error"
		}
	case "sorted":
		for _, e := range f.SortedEntry() {
			fmt.Fprintf(&b, "%q %q;", e.MsgCtxt, e.MsgID)
		}
	}
	return b.String()
}

// call performs one operation of a goroutine; view is its own instance.
func (w *concWorld) call(o concOp, view **t.Translations, alone map[string]string) string {
	if f, ok := w.raw[o.On]; ok {
		switch o.Op {
		case "lang":
			return f.Lang()
		case "hdr":
			h, _ := f.GetHeader("Plural-Forms")
			return h
		case "x":
			p := w.d.Probes[o.K-1]
			return f.X(p.C, text(p.Id), w.args[o.K-1]...)
		case "xn":
			p := w.d.Probes[o.K-1]
			return f.XN64(p.C, text(p.Id), text(p.Id2), p.N, w.args[o.K-1]...)
		}
		if got := fileText(f, o.Op); got != alone[o.On+o.Op] {
			return got
		}
		return "same as alone"
	}
	ts := *view
	switch o.On {
	case "1":
		ts = w.inst[0]
	case "2":
		ts = w.inst[1]
	}
	pkg := o.On == "p"
	a := pkgAPI()
	match := t.MostMatchLocale
	if !pkg {
		a = instAPI(ts, "")
		match = ts.MostMatchLocale
	}
	switch o.Op {
	case "x":
		p := w.d.Probes[o.K-1]
		return a.tX(p.C, text(p.Id), w.args[o.K-1]...)
	case "xn":
		p := w.d.Probes[o.K-1]
		return a.tXN64(p.C, text(p.Id), text(p.Id2), p.N, w.args[o.K-1]...)
	case "loc":
		return a.locale()
	case "dom":
		return a.domain()
	case "src":
		return a.src()
	case "used":
		return a.used()
	case "locs":
		return strings.Join(a.locales(), " ")
	case "doms":
		ds := slices.Clone(a.domains())
		sort.Strings(ds)
		for _, d := range w.d.Doms {
			if a.has(d) != slices.Contains(ds, d) {
				return "HasDomain(" + d + ") and Domains disagree"
			}
		}
		return strings.Join(ds, " ")
	case "match":
		return match()
	case "req":
		return t.GetUserLang(request(o.L))
	case "tags":
		a, b := fmt.Sprintf("fr-x-a%d", w.serial), fmt.Sprintf("de-x-b%d", w.serial)
		if tag, i, _ := t.Match([]string{a, b}, []string{b}); i != 1 {
			return fmt.Sprint(tag, " ", i)
		}
		return "second"
	case "L":
		if pkg {
			*view = t.L(o.L)
		} else {
			*view = ts.L(o.L)
		}
	case "D":
		if pkg {
			*view = t.D(o.D)
		} else {
			*view = ts.D(o.D)
		}
	case "copy":
		*view = t.Global()
	case "ctx":
		ctx := context.Background()
		if o.D != none {
			ctx = t.SetCtxDomain(ctx, o.D)
		}
		if o.L != none {
			ctx = t.SetCtxLocale(ctx, o.L)
		}
		*view = t.WithContext(ctx)
	case "setdom":
		ts.SetDomain(o.D)
	case "setloc":
		ts.SetLocale(o.L)
	case "setsrc":
		ts.SetSourceCodeLocale(o.L)
	case "bind":
		ts.BindFS(o.D, w.d.fsys[o.S])
	case "remove":
		return strconv.FormatBool(ts.RemoveDomain(o.D))
	case "clear":
		ts.ClearDomains()
	default:
		must(fmt.Errorf("unknown op %q", o.Op))
	}
	return "void"
}

func replayConc(raw []byte) Result {
	var c concCase
	must(json.Unmarshal(raw, &c))
	d := loadDefs()
	// what the catalogs are saved as when nothing else happens
	alone := map[string]string{}
	for name, f := range c.Raw {
		for _, how := range []string{"po", "pot", "mo", "sorted"} {
			for _, p := range c.Progs {
				if slices.ContainsFunc(p, func(o concOp) bool { return o.On == name && o.Op == how }) {
					alone[name+how] = fileText(concFile(f), how)
				}
			}
		}
	}
	var cmp comparer
	reps := optInt("reps", 3)
	if len(c.Order) > 0 {
		reps = 1
	}
	for rep := 0; rep < reps; rep++ {
		w := newConcWorld(&c, rep%2 == 1)
		got := make([][]string, len(c.Progs))
		start := make(chan struct{})
		var wg sync.WaitGroup
		turn := make([]chan struct{}, len(c.Progs))
		ended := make(chan any)
		for p := range c.Progs {
			turn[p] = make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				var view *t.Translations
				var broken any
				step := func(o concOp) {
					defer func() {
						if e := recover(); e != nil {
							broken = e
							got[p] = append(got[p], fmt.Sprint("panic: ", e))
						}
					}()
					if broken == nil {
						got[p] = append(got[p], w.call(o, &view, alone))
					}
				}
				if len(c.Order) == 0 {
					<-start
				}
				for _, o := range c.Progs[p] {
					if len(c.Order) > 0 {
						<-turn[p]
					}
					step(o)
					if len(c.Order) > 0 {
						ended <- nil
					}
				}
			}()
		}
		close(start)
		for _, p := range c.Order {
			turn[p-1] <- struct{}{}
			<-ended
		}
		wg.Wait()
		for p := range c.Progs {
			cmp.eq(fmt.Sprintf("goroutine %d", p+1), fmt.Sprint(c.Progs[p]), got[p], c.Answers[p])
		}
		all := func(string) bool { return true }
		for i, e := range c.Obs {
			observe(&cmp, instAPI(w.inst[i], fmt.Sprintf("shared instance %d afterwards", i+1)), d, e, all)
		}
		observe(&cmp, pkgAPI(), d, c.Obs[c.G-1], all)
		for name, how := range c.Raw {
			var a, b bytes.Buffer
			w.raw[name].SaveAsPo(&a)
			concFile(how).SaveAsPo(&b)
			cmp.eq("catalog "+name+" afterwards", "SaveAsPo", a.String(), b.String())
		}
		for k, p := range d.Probes {
			if p.Arg != "" {
				cmp.eq("arguments", "of probe", fmt.Sprintf("%v", w.args[k][:4]), fmt.Sprintf("[%s surplus <nil> <nil>]", p.Arg))
			}
		}
		if len(cmp.diffs) > 0 {
			return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n,
				Note: fmt.Sprintf("set up by %s: %s %s differs", showSteps(c.Setup), cmp.diffs[0].Where, cmp.diffs[0].What)}
		}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

func init() { recorders["conc"] = recordConc }

// recordConc sets up worlds and has six goroutines use each at once; every
// goroutine's history is logged as if it had been alone.
func recordConc(r *rand.Rand, n int, emit func(any)) {
	for k := 0; k < n; k++ {
		var before []any
		h := newHistory(r)
		h.steps(15, 0, func(v any) { before = append(before, v) })
		shared := len(h.w.inst)
		logs := make([][]any, 6)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for p := range logs {
			own := &history{w: &regWorld{d: &regDefs{fsys: map[string]fsFS{}, dirs: map[string]string{}}, inst: slices.Clone(h.w.inst), g: h.w.g},
				r: rand.New(rand.NewSource(r.Int63())), langs: h.langs, doms: h.doms}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				own.steps(40, shared, func(v any) { logs[p] = append(logs[p], v) })
			}()
		}
		close(start)
		wg.Wait()
		for _, l := range append(logs, nil) { // the last one: what is left of the world afterwards
			emit(ev{"e": "begin"})
			for _, v := range before {
				emit(v)
			}
			for _, v := range l {
				emit(v)
			}
			for i, ts := range h.w.inst {
				a := instAPI(ts, "")
				emit(ev{"e": "settings", "i": i + 1, "via": "m", "res": ev{"loc": a.locale(), "dom": a.domain(), "src": a.src(),
					"used": a.used(), "locs": a.locales()}})
			}
		}
	}
}
