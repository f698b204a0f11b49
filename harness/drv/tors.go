package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func init() {
	handlers["tors"] = replayTors
	recorders["tors"] = recordTors
}

// ownTor is a translator of an application: it answers with what it was asked.
type ownTor struct{ id, lang string }

func (o *ownTor) Lang() string { return o.lang }
func (o *ownTor) X(c, id string, args ...any) string {
	return fmt.Sprintf("%s|X|%s|%s|%v", o.id, c, id, args)
}
func (o *ownTor) XN64(c, id, id2 string, n int64, args ...any) string {
	return fmt.Sprintf("%s|XN|%s|%s|%s|%d|%v", o.id, c, id, id2, n, args)
}

type torStep struct {
	Op  string `json:"op"`
	L   string `json:"l"`
	K   string `json:"k"`
	X   string `json:"x"`
	Id  string `json:"id"`
	Ret string `json:"ret"`
}
type torAsk struct {
	C, Id, Id2, N string
	Args          []string
}
type torObs struct {
	L, Id string
	X, Xn []string
}

// torContent is a catalog that translates "who" by the given name.
func torContent(ext, lang, id, kind string) []byte {
	hdr := ""
	if lang != "" {
		hdr = "Language: " + lang + "\n"
	}
	mo := ext == ".mo"
	if kind == "swapped" {
		mo = !mo
	}
	var b []byte
	if mo {
		b = simpleMo([][2]string{{"", "Project-Id-Version: x\n" + hdr}, {"who", id}}, binary.BigEndian)
	} else {
		b = []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Project-Id-Version: x\\n\"\n%q\n\nmsgid \"who\"\nmsgstr \"%s\"\n", hdr, id))
	}
	switch {
	case kind == "bad" && mo:
		return b[:len(b)-9]
	case kind == "bad":
		return append(b, "nonsense\n"...)
	case kind == "empty":
		return nil
	}
	return b
}

// torWorld is a translation and what is known to be in it.
type torWorld struct {
	tr    *t.Translation
	byId  map[string]t.Translator
	bound *t.Translations
}

func newTorWorld(start string) *torWorld {
	w := &torWorld{byId: map[string]t.Translator{}}
	switch start {
	case "bound":
		w.bound = t.NewTranslations()
		w.bound.BindFS("d", fstest.MapFS{"a/zh.po": {Data: torContent(".po", "zh_Hans", "b1", "good")}, "ja.mo": {Data: torContent(".mo", "ja", "b2", "good")}})
		w.bound.SetDomain("d")
		w.tr = w.bound.GetOrNoop("d")
	case "two":
		a, b := &ownTor{"s1", "zh"}, &ownTor{"s2", "fr-fr"}
		w.byId["s1"], w.byId["s2"] = a, b
		w.tr = t.NewTranslation("d", a, b)
	case "twice": // several of one language, and one of none, are given at once
		var given []t.Translator
		for k, l := range []string{"zh", "", "fr", "zh_CN", "FR-fr"} {
			id := fmt.Sprintf("s%d", k+1)
			var tor t.Translator = &ownTor{id, l}
			if k == 2 || k == 3 {
				f, err := translator.ReadPo(torContent(".po", l, id, "good"))
				must(err)
				tor = f
			}
			w.byId[id] = tor
			given = append(given, tor)
		}
		w.tr = t.NewTranslation("d", given...)
	default:
		w.tr = t.NewTranslation("d")
	}
	return w
}

func (w *torWorld) step(s torStep) (ret string) {
	defer func() {
		if e := recover(); e != nil {
			if de, mine := e.(driverError); mine {
				panic(de)
			}
			ret = fmt.Sprint("panic: ", e)
		}
	}()
	errs := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	add := func(tor t.Translator) string {
		w.byId[s.Id] = tor
		prev := w.tr.AddOrReplace(tor)
		if prev == nil {
			return "none"
		}
		for id, x := range w.byId {
			if x == prev {
				return id
			}
		}
		return prev.X("", "who") // loaded by the library: known by its answer
	}
	switch s.Op {
	case "own":
		return add(&ownTor{s.Id, s.L})
	case "file":
		f, err := translator.ReadPo(torContent(".po", s.L, s.Id, "good"))
		if err != nil {
			return "unreadable: " + err.Error()
		}
		return add(f)
	case "po":
		return errs(w.tr.LoadPo(torContent(".po", s.L, s.Id, s.K)))
	case "mo":
		return errs(w.tr.LoadMo(torContent(".mo", s.L, s.Id, s.K)))
	}
	f := faultFS{fstest.MapFS{"x/c" + s.X: {Data: torContent(s.X, s.L, s.Id, s.K)}, "README": {Data: []byte("x")}}, map[string]string{}}
	if s.K == "nostat" || s.K == "readerr" {
		f.broken["x/c"+s.X] = s.K
	}
	if s.Op == "fs" {
		return fmt.Sprint(w.tr.LoadFS(f))
	}
	file, err := f.Open("x/c" + s.X)
	must(err)
	defer file.Close()
	ret = errs(w.tr.LoadFile(file))
	return
}

// known tells which translator is registered for a language.
func (w *torWorld) known(l string) string {
	tor, ok := w.tr.Get(l)
	if !ok {
		return "none"
	}
	for id, x := range w.byId {
		if x == tor {
			return id
		}
	}
	return tor.X("", "who")
}

func replayTors(raw []byte) Result {
	var c struct {
		Start string
		H     []torStep
		Asked []torAsk
		Locs  []string
		Obs   []torObs
	}
	must(json.Unmarshal(raw, &c))
	var cmp comparer
	w := newTorWorld(c.Start)
	for k, s := range c.H {
		ret := w.step(s)
		if s.Ret != "any" {
			cmp.eq(fmt.Sprintf("step %d", k+1), s.Op+" "+s.K+" "+s.L, ret, s.Ret)
		}
	}
	for _, o := range c.Obs {
		cmp.eq("Get", o.L, w.known(o.L), o.Id)
		ask := func(where string, x func(string, string, ...any) string, xn func(string, string, string, int64, ...any) string) {
			for j, q := range c.Asked {
				n, err := strconv.ParseInt(q.N, 10, 64)
				must(err)
				var args []any
				for _, a := range q.Args {
					args = append(args, a)
				}
				cmp.eq(where, fmt.Sprintf("X(%q, %q, %v)", q.C, q.Id, args), x(q.C, q.Id, args...), o.X[j])
				cmp.eq(where, fmt.Sprintf("XN64(%q, %q, %q, %d, %v)", q.C, q.Id, q.Id2, n, args), xn(q.C, q.Id, q.Id2, n, args...), o.Xn[j])
			}
		}
		tor := w.tr.GetOrNoop(o.L)
		ask("GetOrNoop("+o.L+")", tor.X, tor.XN64)
		if w.bound != nil {
			v := w.bound.L(o.L)
			ask("instance.L("+o.L+")", v.X, v.XN64)
			used := o.L
			if o.Id == "none" {
				used = "en_US"
			}
			cmp.eq("instance.L("+o.L+")", "UsedLocale", v.UsedLocale(), used)
			cmp.eq("instance.L("+o.L+")", "Locales", strings.Join(v.Locales(), " "), strings.Join(c.Locs, " "))
		}
	}
	if len(cmp.diffs) > 0 {
		return Result{Verdict: "bad", Obs: cmp.diffs, Checks: cmp.n, Note: fmt.Sprintf("from %s after %+v: %s %s differs", c.Start, c.H, cmp.diffs[0].Where, cmp.diffs[0].What)}
	}
	return Result{Verdict: "ok", Checks: cmp.n}
}

var torLangs = []string{"de_DE", "en_GB", "en_US", "fr_CA", "fr_FR", "ja_JP", "pt_BR", "pt_PT", "ru_RU", "zh_CN", "zh_TW"}

// recordTors logs histories of random additions and what is registered after each.
func recordTors(r *rand.Rand, n int, emit func(any)) {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	for h := 0; h < n; h++ {
		start := pick("empty", "two", "bound", "twice")
		w := newTorWorld(start)
		emit(ev{"e": "begin", "start": start})
		near := []string{regSpells[r.Intn(len(regSpells))], regSpells[r.Intn(len(regSpells))], "fr", "zh-Hans", ""}
		for k := 1; k <= 25; k++ {
			s := torStep{Op: pick("own", "own", "file", "po", "po", "mo", "open", "fs"), L: near[r.Intn(len(near))], K: "good", X: "", Id: fmt.Sprintf("t%d", k)}
			if r.Intn(3) == 0 {
				s.L = regSpells[r.Intn(len(regSpells))]
			}
			if s.Op == "po" || s.Op == "mo" {
				s.K = pick("good", "good", "good", "bad", "empty", "swapped")
			}
			if s.Op == "open" || s.Op == "fs" {
				s.X = pick(".po", ".mo", ".po", ".mo", ".txt", "")
				s.K = pick("good", "good", "good", "bad", "empty", "swapped", "nostat", "readerr")
			}
			s.Ret = w.step(s)
			has := map[string]string{}
			for _, l := range torLangs {
				has[l] = w.known(l)
			}
			l := torLangs[r.Intn(len(torLangs))]
			args := []string{}
			var as []any
			for j := r.Intn(3); j > 0; j-- {
				args = append(args, fmt.Sprint("a", j))
				as = append(as, args[len(args)-1])
			}
			ct, id, id2 := pick("", "c"), pick("who", "m"), pick("", "ms", "who")
			num := int64(r.Uint64()) >> r.Intn(64)
			whole := func(x string) string {
				if x == "" || x == "who" {
					return x
				}
				return x + " %s"
			}
			x, xn := w.tr.GetOrNoop(l).X, w.tr.GetOrNoop(l).XN64
			if w.bound != nil {
				v := w.bound.L(l)
				x, xn = v.X, v.XN64
			}
			emit(ev{"e": "op", "o": s, "has": has, "l": l, "c": ct, "id": id, "id2": id2, "n": fmt.Sprint(num), "args": args,
				"x": x(ct, whole(id), as...), "xn": xn(ct, whole(id), whole(id2), num, as...)})
		}
	}
}

var _ fs.FS = faultFS{}
